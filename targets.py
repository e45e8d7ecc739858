# name, variant, harness sources, repository directories, extra include dirs, extra repository sources
target("values", "asan", ["pbt.cc", "h_values.cc"], ["utils", "value"], extra=["intfc/State.cc"])
target("exec", "asan", ["pbt.cc", "h_exec.cc"], PARSER)
target("expr", "asan", ["pbt.cc", "h_expr.cc"], PARSER)

target("utils", "asan", ["pbt.cc", "h_utils.cc"], APP,
       link=["-Wl," + ",".join("--wrap=" + f for f in ["timer_create", "timer_settime", "timer_delete", "clock_gettime", "gettimeofday", "setitimer", "sigaction"])])
target("udp", "asan", ["pbt.cc", "h_udp.cc"], APP + ["interfaces/UdpAdapter"])
target("intfc", "asan", ["pbt.cc", "h_intfc.cc"], APP)
target("listen", "asan", ["pbt.cc", "h_listen.cc"], APP + ["interfaces/LuvListener", "interfaces/Sockets"])
target("parse", "asan", ["pbt.cc", "h_parse.cc"], PARSER)
target("app", "asan", ["pbt.cc", "h_app.cc"], APP)

target("sim", "asan", ["pbt.cc", "h_sim.cc"], ["utils", "value"],
       extra=["intfc/State.cc"] + ["apps/StandAloneSimulator/%s.cc" % f for f in ["Agenda", "CommandResponseManager", "LineInStream", "PlexilSimResponseFactory", "ResponseFactory", "Simulator", "SimulatorScriptReader", "TimingService"]],
       link=["-Wl," + ",".join("--wrap=" + f for f in ["gettimeofday", "setitimer", "getitimer", "sigwait"])])

# property -> the target which decides it
CHECKS = {
    "sim": ["C26"],
    "expr": ["C03", "C04"],
    "udp": ["C23"],
    "app": ["C19", "C20", "C32"],
    "intfc": ["C09"],
    "parse": ["C14", "C27"],
    "listen": ["C21"],
    "utils": ["C22", "C24"],
    "values": ["C11", "C12", "C13"],
    "exec": ["C01", "C02", "C05", "C06", "C07", "C08", "C10", "C15", "C16", "C17", "C18", "C28", "C29"],
}
