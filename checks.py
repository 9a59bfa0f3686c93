import json, os, pyswitch
from bounds import B
_C = os.path.join(os.path.dirname(os.path.abspath(__file__)), "covers.json")
COVERS = json.load(open(_C)) if os.path.exists(_C) else {}
NA = {}
CHECKS = {}
def H(name, file, hdefs="", **k):
    d = {"name": name, "file": file, "hdefs": hdefs.split()}
    d.update(k)
    return d
def T(hdefs, **k):
    d = {"hdefs": hdefs.split()}; d.update(k); return d
def prop(pid, harnesses, **k):
    CHECKS[pid] = {"level": "model_checking", "bounds": B[pid][0], "outside": B[pid][1], "assumptions": B[pid][2], "covers": COVERS.get(pid, {}), "harnesses": harnesses, **k}

prop("P01", [
    H("chan_basic", "chan.c"),
    H("chan_one", "chan.c", "-DNS=1 -DKS=4 -DNR=1 -DKR=3 -DMAXCAP=2 -DMSG=5"),
    H("chan_dl", "chan.c", "-DDEADLINES -DKR=1 -DSTEPS=2", thorough=T("-DDEADLINES -DKR=2 -DSTEPS=2", budget=500)),
    H("chan_cancel", "chan.c", "-DCANCEL -DKS=1 -DNR=2 -DKR=1"),
    H("ring_many", "scale.c", "-DH_NOLATE -DRING"),
])
prop("P02", [
    H("chan_try", "chan.c", "-DTRY -DKS=2 -DNS=1 -DKR=2 -DMAXCAP=2"),
    H("chan_recvs", "chan.c", "-DNS=1 -DKS=1 -DNR=3 -DKR=1 -DMSG=0"),
    H("chan_close_dl", "chan.c", "-DDEADLINES -DNS=2 -DKS=1 -DNR=1 -DKR=1 -DSTEPS=2", thorough=T("-DDEADLINES -DNS=2 -DKS=1 -DNR=1 -DKR=1 -DSTEPS=3", budget=500)),
    H("chan_close_dl1", "chan.c", "-DDEADLINES -DNS=1 -DKS=1 -DNR=2 -DKR=1 -DSTEPS=2"),
    H("chan_ref", "chanref.c", "-DK=4", thorough=T("-DK=6", budget=400)),
    H("chan_sends", "chan.c", "-DNS=3 -DKS=1 -DNR=1 -DKR=1 -DMAXCAP=2"),
    H("queue_many", "scale.c", "-DH_NOLATE -DQUEUE"),
])
prop("P03", [
    H("sel_basic", "sel.c"),
    H("sel_recv", "sel.c", "-DRECV -DKSEL=1"),
    H("sel_three", "sel.c", "-DNC=3 -DKSEL=1"),
    H("sel_dup", "sel.c", "-DDUP -DKSEL=1"),
    H("sel_two", "sel.c", "-DNSEL=2 -DKSEL=1 -DSTEPS=2 -DOWN"),
    H("sel_cancel", "sel.c", "-DCANCEL -DKSEL=1"),
    H("sel_shared", "sel2.c"),
    H("sel_many", "scale.c", "-DH_NOLATE -DSELECT"),
])
prop("P04", [
    H("mutex_basic", "mutex.c", "-DMODES=1 -DN=4 -DSTEPS=2"),
    H("mutex_modes", "mutex.c", "-DMODES=4 -DSTEPS=2"),
    H("mutex_cancel", "mutex.c", "-DCANCEL -DMODES=1"),
    H("mutex_twice", "mutex.c", "-DMODES=1 -DN=2 -DK=2"),
    H("mutex_many", "scale.c", "-DH_NOLATE -DSYNC -DMODE0=0 -DMODEN=2"),
])
prop("P05", [
    H("cond_basic", "cond.c", "-DN=3 -DKSIG=2"),
    H("cond_two", "cond.c", "-DNSG=2 -DKSIG=1 -DPRE"),
    H("cond_dl", "cond.c", "-DDEADLINES"),
    H("cond_cancel", "cond.c", "-DCANCEL"),
    H("cond_many", "scale.c", "-DH_NOLATE -DSYNC -DMODE0=2 -DMODEN=2"),
])
prop("P06", [
    H("wg_basic", "wg.c", "-DKA=1"),
    H("wg_dl", "wg.c", "-DDEADLINES -DNA=1"),
    H("wg_cancel", "wg.c", "-DCANCEL -DNA=1"),
    H("wg_many", "scale.c", "-DH_NOLATE -DSYNC -DMODE0=4 -DMODEN=1"),
])
prop("P07", [
    H("sleep_order", "sleep.c", "-DN=3 -DSTEPS=4", thorough=T("-DN=4", budget=700)),
    H("sleep_many", "sleep.c", "-DN=5 -DSTEPS=4 -DREL=0 -DH_NOLATE", thorough=T("-DN=6 -DSTEPS=5", budget=600)),
    H("sleep_again", "sleep.c", "-DN=2 -DK=2 -DSTEPS=3"),
    H("sleep_any", "sleepx.c"),
    H("deadline_ops", "dl.c"),
    H("sleep_forty", "scale.c", "-DSLEEP"),
])
prop("P08", [
    H("cancel_ops", "cancel_ops.c"),
    H("cancel_race", "cancel_race.c"),
    H("cleanup", "cleanup.c", "-DDEPTH=2 -DNC=2", thorough=T("-DFULL=1 -DCSTEPS=4", budget=600)),
    H("cancel_state", "cancel_state.c", "-DK=3 -DNC=1"),
    H("cancel_state2", "cancel_state.c", "-DK=2 -DNC=2 -DSTEPS=2"),
])
prop("P09", [
    H("life", "life.c", "-DN=2 -DJOINERS=1 -DMAXARGS=2 -DSTEPS=1", thorough=T("-DMAXARGS=7 -DSTEPS=2", budget=700)),
    H("life_args", "life.c", "-DN=1 -DJOINERS=0 -DMAXARGS=7 -DSTEPS=1"),
    H("life_join", "life.c", "-DN=1 -DJOINERS=2 -DMAXARGS=2"),
    H("life_again", "life.c", "-DN=1 -DJOINERS=1 -DROUNDS=2 -DSTEPS=1 -DMAXARGS=1 -DENDS=3"),
    H("args_many", "scale.c", "-DH_NOLATE -DARGS"),
])
prop("P10", [
    H("reuse", "reuse.c"),
    H("reuse_nopool", "reuse.c", defs=["-DNECO_NOPOOL"]),
    H("stacks", "stacks.c", defs=["-DNECO_DEFCAP=2", "-DNECO_MAXCAP=4"]),
    H("stacks_old", "stacks.c", "-DN=3 -DUNIT=60*MS", defs=["-DNECO_DEFCAP=1", "-DNECO_MAXCAP=2"]),
    H("stacks_nopool", "stacks.c", "-DN=3", defs=["-DNECO_NOPOOL", "-DNECO_DEFCAP=2", "-DNECO_MAXCAP=2"]),
    H("stacks_guard", "stacks.c", "-DN=3", defs=["-DNECO_USEGUARDS", "-DNECO_DEFCAP=2"]),
    H("stacks_nofree", "stacks.c", "-DN=3", defs=["-DNECO_NOSTACKFREELIST", "-DNECO_NOPOOL", "-DNECO_DEFCAP=2"]),
    H("stacks_big", "stacks.c", "-DN=3 -DBIG=50000", defs=["-DNECO_STACKSIZE=65536", "-DNECO_GAPSIZE=4096", "-DNECO_DEFCAP=2"]),
    H("stacks_heap", "stacks.c", "-DN=3 -DROUNDS=1", defs=["-DNECO_USEHEAPSTACK", "-DNECO_STACKSIZE=32768"]),
    H("cos_many", "scale.c", "-DH_NOLATE -DCOS"),
])
prop("P11", [
    H("suspend", "suspend.c", "-DN=1 -DK=2 -DR=2 -DKR=1"),
    H("suspend_two", "suspend.c", "-DN=2 -DK=1 -DR=2 -DKR=1"),
    H("suspend_again", "suspend.c", "-DN=1 -DK=2 -DR=1 -DKR=2"),
    H("suspend_cancel", "suspend.c", "-DN=1 -DK=1 -DR=1 -DCANCEL"),
    H("yield", "yield.c"),
])
prop("P12", [
    H("fd_two", "fdwait.c", "-DSTEPS=2", thorough=T("-DSTEPS=3", budget=700)),
    H("fd_three", "fdwait.c", "-DN=3 -DMODES=1 -DEVENTS=1 -DSTEPS=2"),
    H("fd_again", "fdwait.c", "-DN=1 -DK=2"),
    H("fd_pipes", "fdwait.c", "-DPIPES"),
    H("fd_cancel", "fdwait.c", "-DCANCEL"),
    H("fd_zero", "fdwait.c", "-DM_FD0=0 -DMODES=1 -DEVENTS=1 -DSTEPS=2"),
    H("fd_eintr", "fdwait.c", "-DEINTR_BUDGET=1 -DEVENTS=1 -DSTEPS=2"),
    H("fd_many", "scale.c", "-DH_NOLATE -DFDS -DM_MAXFD=64 -DM_MAXEP=32"),
])
prop("P13", [
    H("io", "io.c"),
    H("io_dl", "io.c", "-DDEADLINES -DRK=1 -DWK=1"),
    H("io_short", "io.c", "-DSHORT=3 -DWK=1 -DRK=3"),
    H("io_eintr", "io.c", "-DEINTR_BUDGET=2 -DWK=1"),
    H("io_big", "io.c", "-DWK=1 -DWMIN=10 -DWMAX=10 -DRK=2 -DRMIN=7 -DRMAX=8 -DDEADLINES"),
    H("io_bigshort", "io.c", "-DWK=1 -DWMIN=10 -DWMAX=10 -DRK=2 -DRMIN=8 -DRMAX=8 -DSHORT=2 -DEINTR_BUDGET=1 -DSTEPS=1"),
    H("io_cancel", "io.c", "-DCANCEL -DWK=1 -DWMIN=9 -DWMAX=9 -DRK=2 -DRMIN=7 -DRMAX=8"),
    H("io_burst", "io.c", "-DRMIN=2", defs=["-DNECO_BURST=1", "-DNECO_NOWORKERS"]),
    H("conn", "conn.c"),
    H("conn_dl", "conn.c", "-DDEADLINES -DNCL=1 -DKA=2"),
    H("conn_cancel", "conn.c", "-DCANCEL -DNCL=1"),
    H("conn_eintr", "conn.c", "-DEINTR_BUDGET=2 -DNCL=1"),
    H("io_burst4", "io.c", "-DSHORT=2 -DWK=1", defs=["-DNECO_BURST=4"]),
])
prop("P14", [
    H("srd", "srd.c", "-DCHUNKS=1 -DKIND=1", thorough=T("-DK=4", budget=500)),
    H("srd_raw", "srd.c", "-DCHUNKS=1 -DKIND=0 -DRMAX=3"),
    H("srd_two", "srd.c", "-DK=2 -DKIND=1 -DNBYTES=4"),
    H("srd_dl", "srd.c", "-DDEADLINES -DNOCLOSE -DK=2 -DRMAX=3 -DNBYTES=4"),
    H("srd_cancel", "srd.c", "-DCANCEL -DNOCLOSE -DK=2 -DRMAX=3 -DNBYTES=3"),
    H("srd_short", "srd.c", "-DSHORT=2 -DEINTR_BUDGET=1 -DCHUNKS=1 -DKIND=1 -DK=2"),
    H("srd_4096", "srd.c", "-DCHUNKS=2 -DKIND=2 -DK=2"),
    H("srw", "srw.c"),
    H("swr", "swr.c", "-DKIND=1"),
    H("swr_raw", "swr.c", "-DKIND=0 -DK=2"),
    H("swr_dl", "swr.c", "-DDEADLINES -DK=2 -DRK=1"),
    H("swr_cancel", "swr.c", "-DCANCEL -DK=2 -DRK=1"),
    H("swr_break", "swr.c", "-DBREAK -DK=2 -DRK=1"),
    H("swr_short", "swr.c", "-DSHORT=2 -DK=2 -DRK=1"),
    H("stream_big", "scale.c", "-DH_NOLATE -DSTREAM -DM_PIPECAP=16384"),
])
prop("P15", [
    H("sig", "sig.c"),
    H("sig_three", "sig.c", "-DNSIG_=3 -DN=1 -DK=2 -DLATE"),
    H("sig_unwatch", "sig.c", "-DUNWATCH -DN=1 -DK=2"),
    H("sig_dl", "sig.c", "-DDEADLINES -DN=2 -DK=1 -DKR=1 -DLATE"),
    H("sig_cancel", "sig.c", "-DCANCEL -DN=2 -DKR=1"),
    H("sigpipe", "sigpipe.c", defs=["-DNECO_MAXWORKERS=2", "-DNECO_MAXRINGSIZE=2"]),
    H("sigpipe_nowork", "sigpipe.c", defs=["-DNECO_NOWORKERS"]),
    H("sig_many", "scale.c", "-DH_NOLATE -DSIGS"),
])
WK = ["-DNECO_MAXWORKERS=2", "-DNECO_MAXRINGSIZE=2"]
prop("P16", [
    H("work", "work.c", "-DSPAN=60", defs=WK, race=1),
    H("work_two", "work.c", "-DN=2 -DDELAYS=2 -DSPAN=40", defs=WK, race=1),
    H("work_again", "work.c", "-DN=2 -DK=2 -DPINS=1 -DWTIMEOUT=2 -DSTEPS=2", defs=WK, race=1),
    H("work_full", "work.c", "-DN=4 -DPINS=1 -DOVERFLOW", defs=WK, race=1),
    H("work_fail", "work.c", "-DN=2 -DTHFAIL=2 -DOVERFLOW", defs=WK, race=1),
    H("work_block", "work.c", "-DN=2 -DBLOCK", defs=WK, race=1),
    H("work_cancel", "work.c", "-DN=1 -DCANCEL_=1 -DBLOCK", defs=WK, race=1),
    H("work_many", "scale.c", "-DH_NOLATE -DWORK", defs=["-DNECO_MAXWORKERS=1"]),
])
SAN = ["-fsanitize=signed-integer-overflow,shift,bounds,integer-divide-by-zero,null,alignment,bool,enum,pointer-overflow,vla-bound,unreachable,return", "-fsanitize-trap=all"]
WK2 = ["-DNECO_MAXWORKERS=2", "-DNECO_MAXRINGSIZE=2"]
MEM = dict(match=r"^(memory|ub)|leaked|not open", defs=SAN, budget=25)
prop("P17", [
    H("oom", "oom.c", defs=WK2),
    H("ints", "ints.c", defs=WK2 + SAN),
    H("oom_start", "oom_start.c", defs=WK2),
    H("oom_start_guard", "oom_start.c", defs=WK2 + ["-DNECO_USEGUARDS"]),
    H("oom_start_heap", "oom_start.c", defs=WK2 + ["-DNECO_USEHEAPSTACK"]),
    H("oom_nopool", "oom.c", defs=WK2 + ["-DNECO_NOPOOL", "-DNECO_DEFCAP=1", "-DNECO_MAXCAP=1"]),
    H("mem_chan", "chan.c", "-DNS=1 -DKS=3 -DNR=1 -DKR=2 -DMAXCAP=2 -DMSG=5 -DSTEPS=2", **MEM),
    H("mem_chan_cancel", "chan.c", "-DCANCEL -DNS=1 -DKS=1 -DNR=2 -DKR=1 -DSTEPS=2", **MEM),
    H("mem_sel_many", "scale.c", "-DH_NOLATE -DSELECT", **MEM),
    H("mem_sel", "sel.c", "-DCANCEL -DKSEL=1", **MEM),
    H("mem_ops", "cancel_ops.c", "", **MEM),
    H("mem_life", "life.c", "-DN=1 -DJOINERS=1 -DMAXARGS=2", **MEM),
    H("mem_reuse", "reuse.c", "", **MEM),
    H("mem_stacks", "stacks.c", "-DN=3", **dict(MEM, defs=SAN + ["-DNECO_DEFCAP=1", "-DNECO_MAXCAP=2"])),
    H("mem_srd", "srd.c", "-DCHUNKS=1 -DKIND=1 -DK=2", **MEM),
    H("mem_swr", "swr.c", "-DKIND=1 -DK=2", **MEM),
    H("mem_io", "io.c", "-DWK=1 -DRK=1 -DSTEPS=2", **MEM),
    H("mem_sig", "sig.c", "-DN=1 -DK=2 -DSTEPS=2", **MEM),
    H("mem_work", "work.c", "-DN=2 -DK=1 -DPINS=1 -DSTEPS=2", **dict(MEM, defs=SAN + WK)),
    H("zchan_many", "scale.c", "-DH_NOLATE -DZCHAN"),
])
prop("P18", [
    H("gen", "gen.c"),
    H("gen_two", "gen.c", "-DNC=2 -DKN=1 -DRETAIN"),
    H("gen_dl", "gen.c", "-DDEADLINES"),
    H("gen_cancel", "gen.c", "-DCANCEL"),
    H("gen_many", "scale.c", "-DH_NOLATE -DGENS"),
])
prop("P19", [
    H("rand", "rand.c", "-DH_NOLATE"),
    H("rand_long", "rand_long.c", "-DH_NOLATE"),
    H("rand_inj", "rand_inj.c", "-DH_NOLATE"),
])
prop("P25", [
    H("bcast", "bcast.c", "-DKB=1 -DKR=2 -DSELFC"),
    H("bcast_again", "bcast.c", "-DNR=1 -DKB=2"),
    H("bcast_dl", "bcast.c", "-DDEADLINES"),
    H("bcast_cancel", "bcast.c", "-DCANCEL -DKB=1"),
    H("bcast_many", "bcast.c", "-DNR=4 -DNSEL=0 -DKB=1"),
    H("bcast_sel", "bcast.c", "-DNR=0 -DNSEL=2 -DKB=2 -DACTS=1"),
    H("bcast_dup", "bcast.c", "-DDUP -DNR=1 -DNSEL=1 -DKB=2"),
    H("bcast_twenty", "scale.c", "-DH_NOLATE -DBCAST"),
])
prop("P24", [
    H("stats", "stats.c", "-DN=1 -DNOBS=1", thorough=T("-DN=1", budget=300)),
    H("stats_two", "stats.c", "-DN=2 -DSTEPS=1 -DNOBS=1"),
])
prop("P23", [
    H("gai", "gai.c", defs=WK2),
    H("gai_cancel", "gai.c", "-DCANCEL -DSTEPS=1", defs=WK2),
    H("gai_race", "gai.c", "-DRACE -DDELAYS=1 -DSTEPS=1 -DCANCEL", defs=WK2, race=1),
    H("gai_two", "gai.c", "-DN=2 -DSTEPS=1", defs=WK2),
    H("gai_oom", "gai.c", "-DOOM=1 -DSTEPS=1", defs=WK2),
    H("gai_zero", "gai.c", "-DSTEPS=1 -DM_FD0=0", defs=WK2),
    H("npipe", "npipe.c", "-DCONN", defs=WK2),
    H("npipe_fault", "npipe.c", "-DFDERR=2", defs=WK2),
    H("npipe_cancel", "npipe.c", "-DCANCEL", defs=WK2),
    H("npipe_zero", "npipe.c", "-DM_FD0=0", defs=WK2),
    H("npipe_stale", "npipe.c", "-DSTALE", defs=WK2),
    H("gai_fault", "gai.c", "-DFDERR=1 -DTHFAIL=1 -DSTEPS=1", defs=WK2),
])
prop("P20", [
    H("addr", "dial.c", "-DPARSE -DL=6 -DH_NOLATE", defs=WK2),
    H("addr_text", "dial.c", "-DPARSE -DALPHA -DL=8 -DH_NOLATE", defs=WK2),
    H("addr_long", "dial.c", "-DPARSE -DLONG -DL=130 -DH_NOLATE", defs=WK2),
    H("nets", "dial.c", "-DNETS", defs=WK2),
    H("unix", "dial.c", "-DUNIX", defs=WK2),
    H("dial", "dial.c", "", defs=WK2),
    H("dial_dl", "dial.c", "-DDEADLINES", defs=WK2),
    H("dial_cancel", "dial.c", "-DCANCEL", defs=WK2),
    H("dial_slow", "dial.c", "-DDEADLINES -DHOLD", defs=WK2),
    H("dial_slow_cancel", "dial.c", "-DCANCEL -DHOLD", defs=WK2),
    H("dial_fault", "dial.c", "-DFDERR=2 -DDEADLINES -DSTEPS=1", defs=WK2),
])
prop("P21", [
    H("outside", "err.c", "-DOUTSIDE", defs=WK2),
    H("invalid", "err.c", "-DINVALID", defs=WK2),
    H("last", "err.c", "-DLAST", defs=WK2),
    H("text", "err.c", "-DTEXT", defs=WK2),
    H("leak", "errleak.c", "", defs=WK2),
])
prop("P26", [
    H("two", "two.c", "-DDELAYS=2 -DSPAN=25 -DSCRIPTS=7", defs=WK2, race=1),
    H("two_foreign", "two.c", "-DFOREIGN -DDELAYS=0", defs=WK2, race=1),
    H("two_signals", "two.c", "-DSIGNALS", defs=WK2, race=1),
    H("two_pipe", "two.c", "-DPIPE -DDELAYS=1 -DSPAN=40", defs=WK2, race=1),
])
prop("P27", [
    H("env_panic", "env.c", "-DPANIC", defs=WK2),
    H("env_alloc", "env.c", "-DALLOC", defs=WK2),
    H("env_defaults", "env.c", "-DDEFAULTS", defs=WK2),
    H("env_main", "env.c", "-DMAIN", defs=WK2),
    H("env_text", "env.c", "-DTEXTP", defs=WK2),
])
prop("P22", [
    {"name": "switch", "py": pyswitch.run, "replay": pyswitch.replay, "configs": ["gcc -O0", "gcc -O2", "clang-18 -O0", "clang-18 -O2"]},
], technique="symbolic execution of the compiled x86-64 machine code of the context switch; Z3 decides register and memory equalities; counterexamples replayed natively")
