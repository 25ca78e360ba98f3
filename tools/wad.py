import struct,sys
def read(fn):
    d=open(fn,'rb').read()
    sig,n,o=struct.unpack('<4sII',d[:12])
    L=[]
    for i in range(n):
        p,s,nm=struct.unpack('<II8s',d[o+16*i:o+16*i+16])
        L.append((nm.split(b'\0')[0].decode('latin1'),d[p:p+s],p,s))
    return sig,L,d
def write(fn,lumps,sig=b'PWAD'):
    body=b'';dirs=[]
    pos=12
    for nm,data in lumps:
        dirs.append(struct.pack('<II8s',pos,len(data),nm.encode('latin1')))
        body+=data;pos+=len(data)
    open(fn,'wb').write(struct.pack('<4sII',sig,len(lumps),pos)+body+b''.join(dirs))
def show(fn):
    sig,L,d=read(fn)
    print(sig,len(L),len(d))
    import hashlib
    for i,(n,data,p,s) in enumerate(L):
        print(i,n,'pos',p,'size',s,'got',len(data),hashlib.md5(data).hexdigest()[:8])
if __name__=='__main__': show(sys.argv[1])
