"""Which scenarios decide which property, and how much of each tier."""
PROPS = {}


def add(prop, scenarios, quick, thorough=None, **kw):
    PROPS[prop] = dict(scenarios=scenarios,
                       runs={"quick": quick,
                             "thorough": thorough or quick * 40}, **kw)


def load():
    if PROPS:
        return
    from scenarios import tlm, sync
    add("T01", [tlm.FifoOrder], 800)
    add("T02", [tlm.FifoStatus], 800)
    add("T03", [tlm.FifoProgress], 800)
    add("T04", [tlm.FifoFlush], 500)
    add("E01", [sync.EventScenario], 1500)
    add("E02", [sync.BarrierScenario], 1500)
    add("E03", [sync.SemScenario], 1500)
    add("E04", [sync.ForkScenario], 1000)
    from scenarios import objection
    add("O01", [objection.ObjectionCounts], 600)
    add("O02", [objection.ObjectionDrain], 600)
    add("O03", [objection.ObjectionTrace], 600)
    from scenarios import phase
    add("P01", [phase.PhaseOrder], 300)
    add("P02", [phase.PhaseRuntime], 300)
    add("P03", [phase.PhaseCustom], 300)
    from scenarios import seq
    add("S01", [seq.SeqOnce], 500)
    add("S02", [seq.SeqArb], 500)
    add("S03", [seq.SeqRsp], 500)
    add("S04", [seq.SeqLife], 500)
    from scenarios import defseq
    add("S05", [defseq.DefSeq], 400)
    from scenarios import ports
    add("T05", [ports.Broadcast], 400)
    add("T06", [ports.ReqRsp], 400)
    add("T07", [ports.Routing], 400)
    add("T08", [ports.Binding], 400)
    from scenarios import tlm2
    add("T09", [tlm2.Sockets], 400)
    from scenarios import regs
    add("R01", [regs.RegCoherence], 300)
    add("R02", [regs.RegFaults], 300)
    from scenarios import mems
    add("R03", [mems.MemScenario], 400)
    from scenarios import reghooks
    add("R04", [reghooks.RegHooks], 400)
    from scenarios import report
    add("M01", [report.ReportDelivery], 500)
    add("M02", [report.ReportCatchers], 600)
    add("M03", [report.ReportExit], 500)
    from scenarios import cbs
    add("C01", [cbs.Callbacks], 600)
    from scenarios import config
    add("C02", [config.ConfigLookup], 800,
        known_scenarios=[config.ConfigAnchor])
    add("C03", [config.Resources], 800)
    add("C04", [config.AutoConfig], 600)
    from scenarios import compare
    add("K01", [compare.Comparators], 600)
    from scenarios import record
    add("D01", [record.Recording], 600)
    add("D02", [record.SeqRecording], 500)
    from scenarios import factory
    add("F01", [factory.FactoryCreate], 800)
    from scenarios import regtests
    add("R05", [regtests.RegTests], 240)
    from scenarios import cmdline
    add("M04", [cmdline.CmdLine], 500, known_scenarios=[cmdline.CmdCut])
    from scenarios import hier
    add("H01", [hier.Hierarchy], 600)
    from scenarios import rand
    add("X01", [rand.Randomize], 600)
    from scenarios import backdoor
    add("R06", [backdoor.Backdoor], 500)
    add("R07", [backdoor.AccessTest], 400)
    from scenarios import addrmap
    add("R08", [addrmap.AddrMap], 500)
    from scenarios import special
    add("R09", [special.Special], 500)
