"""C24: log filters.  Channels are dotted paths of opaque name components; every set of configured prefixes."""
import itertools
import containers, front
from interp import Cell, Native, Unsupported, AssertFail, CppThrow, val, copyval
from models import Str, Stream, Smart
from session import Session, pmap

NAMES = ("", "a", "a.b", "a.b.c", "ab", "a.bc")
QUERY = ("", "a", "a.b", "a.b.c", "a.b.c.d", "ab", "ab.c", "a.bc", "a.c", "x", "x.y", "b", "a.b.", ".a")


def run(chk):
    chk.rule("a filter forwards a message exactly if its level is at least the level of the longest configured dotted prefix of the channel "
             "(the empty channel being configured from the start with the default level); evaluated for every set of configured prefixes, "
             "all message levels and every relation of the channel to the configured prefixes")
    chk.rule("the logger writes the message to exactly the sinks whose filter forwards it, and visible() is the disjunction over the sinks")
    chk.assume("channel components are opaque names; paths of up to four components; configured levels represented by three of the eight levels")
    sess = Session("logging.cpp")
    containers.register(sess.models)
    I, dom = sess.I, sess.dom
    en = {}
    for n, c in sess.prog.enum_by_name.items():
        if n.endswith("LogLevel"):
            en = c
    levels = sorted({v for k, v in en.items() if k != "LVL_DEFAULT"})
    if len(levels) < 8:
        chk.error("log levels vanished")
        return
    DEF = en["LVL_DEFAULT"]
    LO, MID, HI = en["LVL_TRACE"], en["LVL_INFO"], en["LVL_OFF"]

    def S(x):
        return Cell(Str(x))

    def oracle(conf, ch):
        best = None
        parts = ch
        while True:
            if parts in conf:
                return conf[parts]
            if parts == "":
                return DEF
            i = parts.rfind(".")
            parts = "" if i < 0 else parts[:i]

    def filters():
        for choice in itertools.product((None, LO, HI), repeat=len(NAMES)):
            yield {n: c for n, c in zip(NAMES, choice) if c is not None}

    def work(j):
        dom.w = sess.world({}, 0)
        I.reset()
        try:
            if j[0] == "m":
                yield from macros()
            elif j[0] == "f":
                conf = j[1]
                f = Cell(I.call_root("q_mk"))
                order = list(conf)
                for n in order:
                    I.call_root("q_rule", f, S(n), MID)         # later rules replace earlier ones
                for n in reversed(order):
                    I.call_root("q_rule", f, S(n), conf[n])
                for ch in QUERY:
                    exp = oracle(conf, ch)
                    for l in levels:
                        yield ("count", "obligations filter decisions", 1)
                        r = bool(I.call_root("q_check", f, S(ch), l))
                        if r != (l >= exp):
                            yield ("violation", dict(rule="a message is forwarded exactly if its level is at least the level of the longest configured prefix",
                                   where=sess.target("q_check"), instance="rules %s, channel '%s', level %d" % (conf, ch, l),
                                   detail="returned %s, the level required is %d" % (r, exp)))
                            return
            else:
                confs = j[1]
                st = [Cell(Stream()) for _ in confs]
                for k, c in enumerate(confs):
                    I.call_root("q_conf" if k % 2 == 0 else "q_confsink", S("s%d" % k), st[k] if k % 2 == 0 else Cell(I.call_root("q_sink", st[k])))
                    flt = I.call_root("q_filter", S("s%d" % k))
                    for n, l in c.items():
                        I.call_root("q_rule", flt, S(n), l)
                if j[2]:
                    I.call_root("q_reset")
                for k in range(len(confs)):
                    if not I.call_root("q_has", S("s%d" % k)):
                        yield ("violation", dict(rule="a configured sink is known", where=sess.target("q_has"), instance=str(confs), detail=""))
                        return
                if I.call_root("q_has", S("t")):
                    yield ("violation", dict(rule="only configured sinks are known", where=sess.target("q_has"), instance=str(confs), detail=""))
                    return
                for ch in ("", "a", "a.b", "a.b.c", "ab", "x"):
                    for l in levels:
                        exp = [l >= oracle(c, ch) for c in confs]
                        for q in ("q_visible", "q_lvisible"):
                            yield ("count", "obligations visibility queries", 1)
                            if bool(I.call_root(q, l, S(ch))) != any(exp):
                                yield ("violation", dict(rule="visibility agrees with delivery", where=sess.target(q), instance="sinks %s, channel '%s', level %d" % (confs, ch, l), detail="expected %s" % any(exp)))
                                return
                        for q in ("q_log", "q_llog"):
                            for s in st:
                                del s.v.text[:]
                            ss = Stream()
                            ss.put("<<message>>")
                            I.call_root(q, l, S(ch), Cell(ss), Cell(I.call_root("q_info")))
                            for k, s in enumerate(st):
                                yield ("count", "obligations deliveries", 1)
                                t = "".join(s.v.text)
                                if t.count("<<message>>") != (1 if exp[k] else 0) or (t and not exp[k]):
                                    yield ("violation", dict(rule="a message is written to exactly the sinks whose filter forwards it", where=sess.target(q),
                                           instance="sinks %s, channel '%s', level %d, sink %d" % (confs, ch, l, k), detail="written: %r" % t))
                                    return
        except (AssertFail, CppThrow) as e:
            yield ("violation", dict(rule="no fault", where="carl-logging", instance=str(j[1]), detail="%s" % (e,)))
    def macros():
        """every logging macro delivers with its own level"""
        for m, name in (("trace", "TRACE"), ("debug", "DEBUG"), ("info", "INFO"), ("warn", "WARN"), ("error", "ERROR"), ("fatal", "FATAL"), ("func", "TRACE")):
            for l in levels:
                for ch in ("a", "a.b", "b"):
                    I.reset()
                    st = Cell(Stream())
                    I.call_root("q_conf", S("s"), st)
                    I.call_root("q_rule", I.call_root("q_filter", S("s")), S("a"), l)
                    I.call_root("q_m_" + m, S(ch))
                    exp = en["LVL_" + name] >= (l if ch != "b" else DEF)
                    yield ("count", "obligations macro deliveries", 1)
                    if ("<<message>>" in "".join(st.v.text)) != exp:
                        yield ("violation", dict(rule="a logging macro logs with its own level", where="%s/src/carl-logging/logging.h __CARL_LOG_%s" % (front.REPO, m.upper()),
                               instance="macro %s, configured level %d, channel '%s'" % (m, l, ch), detail="delivered: %s, expected %s" % (not exp, exp)))
                        return
    jobs = [("f", c) for c in filters()]
    small = [{}, {"": LO}, {"a": LO}, {"a": HI}, {"a.b": LO, "a": HI}, {"a.b.c": HI, "": LO}, {"x": MID}]
    for n in (0, 1, 2):
        for cs in itertools.product(small, repeat=n):
            jobs.append(("l", cs, len(jobs) % 2))
    jobs.append(("m", ()))
    jobs.append(("l", (small[1], small[2], small[3]), 1))
    pmap(chk, sess, jobs, work)
    chk.require("obligations filter decisions", 50000)
    chk.require("obligations visibility queries", 4000)
    chk.require("obligations macro deliveries", 150)
    chk.require("obligations deliveries", 5000)
