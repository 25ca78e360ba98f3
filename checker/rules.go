package main

import "go/token"

const (
	plusTok = token.ADD
	quoTok  = token.QUO
	shrTok  = token.SHR
)

func ruleMainPre(c *Ctx) {
	m := newMainFlow(c.P, "pre")
	c.Take(m.e)
	c.Count("outcome classes of main() before output is opened", len(m.out))
	for _, k := range []string{"opening of output", "opening of input for reading", "read of input header/directory", "level count", "RMB parse", "opening of RMB file", "same-file check", "stat for same-file check", "opening of named output", "creation of temporary file"} {
		c.Min("main-flow-pre", "main-flow-pre: "+k, 1)
	}
}

func ruleMainIO(c *Ctx) {
	m := newMainFlow(c.P, "io")
	c.Take(m.e)
	c.Count("outcome classes of main()", len(m.out))
	for _, k := range []string{"opening of named output", "creation of temporary file", "opening of input for reading", "opening of input for writing", "copy of temporary file over input", "write of header", "reservation of space", "start of writer", "end of writer", "seek in output", "write of directory", "close of output", "deletion/replacement of a file", "success report", "read of lump in main"} {
		c.Min("main-flow-io", "main-flow-io: "+k, 1)
	}
}

var properties = map[string]Property{
	"W01": {Rules: []func(*Ctx){ruleMainIO}},
	"W02": {Rules: []func(*Ctx){ruleMainPre}},
	"W03": {Rules: []func(*Ctx){ruleMainIO, ruleWriter, ruleBusContract, ruleLevelLumps, ruleLevelBuilders}},
	"W04": {Rules: []func(*Ctx){ruleMainIO}},
	"W05": {Rules: []func(*Ctx){ruleMainPre}},
	"W06": {Rules: []func(*Ctx){ruleWriter}},
	"W07": {Rules: []func(*Ctx){ruleMainIO, ruleBusContract}},
	"L01": {Rules: []func(*Ctx){ruleWriteNodes, ruleWaitLevel, ruleLevelBuilders}},
	"L03": {Rules: []func(*Ctx){ruleLevelBuilders, ruleNodeBuilders, ruleRejectBuilder, ruleSharedBlockmap}},
	"L04": {Rules: []func(*Ctx){ruleLevelBuilders}},
	"L05": {Rules: []func(*Ctx){rulePackageState, ruleLevelBuilders}},
	"L06": {Rules: []func(*Ctx){ruleMapOrder, ruleSources, ruleCollectors, ruleWaitLevel}},
	"L07": {Rules: []func(*Ctx){ruleLogLock}},
	"L02": {Rules: []func(*Ctx){ruleWaitLevel, ruleLevelBuilders, ruleNodeBuilders, ruleRejectBuilder, ruleBlockmapBuilder, ruleWorkers}},
	"N01": {Rules: []func(*Ctx){ruleTreeShare, ruleMapData}},
	"N02": {Rules: []func(*Ctx){ruleMapData, ruleLevelBuilders, ruleNodeBuilders, ruleRejectBuilder, ruleBlockmapBuilder}},
	"N05": {Rules: []func(*Ctx){ruleOptions, ruleOptionParser, ruleLevelBuilders, ruleNodeBuilders}},
	"N03": {Rules: []func(*Ctx){ruleNodeBuilders, ruleSegLimits, ruleFormatSwitch}},
	"N06": {Rules: []func(*Ctx){ruleRecordCopy, ruleNodeIndex, ruleSegRuns}},
	"R01": {Rules: []func(*Ctx){ruleRMBErrors, ruleMainPre}},
	"R02": {Rules: []func(*Ctx){ruleRMBSymmetry}},
	"R06": {Rules: []func(*Ctx){ruleRMBEffects, ruleLevelBuilders}},
	"R03": {Rules: []func(*Ctx){ruleRMBOrder}},
	"R04": {Rules: []func(*Ctx){ruleRMBNumbers}},
	"R05": {Rules: []func(*Ctx){ruleRejectSource, ruleWaitLevel}},
	"B01": {Rules: []func(*Ctx){ruleBlockmapLimits}},
	"W10": {Rules: []func(*Ctx){ruleLevelLumps, ruleEndian, ruleRecords}},
	"N04": {Rules: []func(*Ctx){ruleExtStream}},
	"W09": {Rules: []func(*Ctx){ruleLevelLumps}},
	"W11": {Rules: []func(*Ctx){ruleLevelLumps}},
	"W08": {Rules: []func(*Ctx){ruleMainIO, ruleWriter, ruleBusContract}},
}
