"""C06: a WSMan response is only used if it answers the request that was sent."""
import re

from .wsm import *

TECHNIQUE = "static analysis: path-sensitive provenance of request id and response relates-to; every returning path must have compared them equal"
FOLD = {"lower", "upper", "strip", "casefold"}


def run(rep, repo, tier):
    rep.rule("fresh", "every request carries a message id made for it alone (a new random id, different for successive requests)", 14)
    rep.rule("compared", "a response is handed to the caller only on paths where its relates-to id was found equal to the id sent", 14)
    rep.rule("rejected", "a missing or different relates-to id ends in one of the library's errors", 14)
    rep.assume("uuid.uuid4 never returns the same value twice; ElementTree parses what the server sent")
    for _ in backgrounds(rep):
        for op in OPS + ["get_server_config"]:
            one(rep, repo, op)
        one(rep, repo, "receive", enc="auto")
        one(rep, repo, "create", enc="auto")


def peel(t):
    while isinstance(t, T) and t.op == "meth" and t.args[0] in FOLD and len(t.args) == 2:
        t = t.args[1]
    return t


def is_relates(t, resp):
    t = peel(t)
    if isinstance(t, T) and t.op == "attr" and t.args[1] == "text":
        t = t.args[0]
    elif not (isinstance(t, T) and t.op == "meth" and t.args[0] == "findtext"):
        return False
    if not (isinstance(t, T) and t.op in ("meth", "item", "ret")):
        return False
    if not any(isinstance(x, K) and isinstance(x.v, str) and x.v.endswith("RelatesTo") for x in subterms(t)):
        return False
    if not any(isinstance(x, K) and isinstance(x.v, str) and re.search(r"Header(/|$)", x.v) for x in subterms(t)) and any(
            isinstance(x, K) and isinstance(x.v, str) and ("//" in x.v and "RelatesTo" in x.v and "://" not in x.v) for x in subterms(t)):
        return False  # looked for anywhere in the document
    return any(x == T("attr", resp, "content") or x == T("attr", resp, "text") for x in subterms(t))


def one(rep, repo, op, enc="never"):
    w = Http(rep, repo, script=[("enc", 200)] if enc == "auto" else [200])
    w.wrap_boundary()
    I = w.I
    con = "%s%s" % (op, " (encrypted)" if enc == "auto" else "")
    where = "wsman.WSMan.%s" % op
    bad = {"fresh": None, "compared": None, "rejected": None}
    returned = rejected = 0
    for s, ref in w.wsman(State(), encryption=K(enc))[:1]:
        n0 = len([1 for e in s.events() if e.kind == "http"])
        runs = []

        def call(st):
            if op == "get_server_config":
                return I.call_method(st, ref, op)
            return w.op(st, ref, op)
        for o in call(s):
            runs.append((o, 0, None))
        for o in [r[0] for r in runs if r[0].sig == "return"][:1]:
            first = [x for x in w.http(o) if not x.auth_only]
            for o2 in call(o.st):
                runs.append((o2, len(first), first))
        ids = {}
        for o, skip, prev in runs:
            xs = [x for x in w.http(o) if not x.auth_only][skip:]
            if not xs:
                bad["compared"] = bad["compared"] or "no request was sent (%s %s)" % (o.sig, w.exc(o))
                continue
            x = xs[-1]
            doc = sent_xml(x.data)
            mid = doc is not None and find(doc, "Header", "MessageID")
            mid = mid.args[2] if mid else None
            toks = [t for t in subterms(mid) if isinstance(t, T) and t.op == "ret" and t.args[1] == "uuid.uuid4"] if mid is not None else []
            if not toks:
                bad["fresh"] = "the message id is %r" % (mid,)
                continue
            if prev:
                pdoc = sent_xml(prev[-1].data)
                pm = find(pdoc, "Header", "MessageID")
                if pm is None or toks[0] in list(subterms(pm.args[2])):
                    bad["fresh"] = "two successive requests carry the same message id"
            others = [e.args[0] if e.args else None for e in o.events if e.kind == "ext" and e.name == "uuid.uuid4"]
            eqs = []
            for a, v in o.st.facts.items():
                if a.op == "==":
                    p, q = a.args
                    for p, q in ((p, q), (q, p)):
                        if peel(p) == mid and is_relates(q, x.resp):
                            eqs.append(v)
            if o.sig == "return":
                returned += 1
                if True not in eqs:
                    bad["compared"] = "a response is returned although its relates-to id was not found equal to %r" % (mid,)
            else:
                rejected += 1
                if not w.lib_error(o):
                    bad["rejected"] = "raises %s" % w.exc(o)
    if not returned:
        bad["compared"] = bad["compared"] or "no response is ever returned"
    if not rejected:
        bad["rejected"] = bad["rejected"] or "a response with a different id is never rejected"
    for r, m in bad.items():
        rep.ob(r, m is None, where, con, m or "")
    w.done()
