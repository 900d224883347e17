#!/usr/bin/env python3
"""Authoring aid: writes /verif/DESIGN.md from the text below, the rules declared in psa/rules and the planted bugs' meta.json."""
import glob
import json
import os
import re

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Design: static analysis of pypsrp

Everything here decides a property from the source under `/repo/src/pypsrp`, read again on every run. Nothing of pypsrp is
imported or executed, no solver is used, and no test input is run. The analyser is `psa/` (Python standard library only); a check is
`python3 check.py <ID>`.

## The analyser

`psa/loader.py` parses the package (classes, methods, constants, imports; inheritance and name resolution across modules).
`psa/interp.py` is a path-sensitive, interprocedural abstract interpreter over the syntax tree:

* Values are constants, references to abstract heap objects (instances, lists, dicts, XML elements, generators), or *terms*: what an
  unknown input or the result of an unknown call is, together with how it was computed (`encode(x)`, `x[a:b]`, `x.attr`). Integers are
  linear forms over unknowns. Conditions on unknowns fork the path and are remembered as facts, so a later test of the same thing does
  not fork again; comparisons of linear forms are decided by interval reasoning, not by a solver.
* Each call into the package is followed (with the real argument binding, inheritance, properties, decorators, context managers,
  generators, closures, exceptions, `finally`). Calls out of the package give a term and an event, or a model where the meaning matters
  (`requests.Session`, `xml.etree`, `struct`, `base64`, `uuid`, `threading`, `time`, `tempfile`, `hashlib`, `os`).
* Every path ends in an outcome: how it ended (return/raise), the final heap and the events of the path in order: calls at the boundary
  the rule chose (wire, HTTP exchange, file, cipher), log calls, attribute stores.
* Loops over unknown collections are followed for 0, 1 and 2 *generic* elements (unknowns, not samples), `while` loops up to a bound per
  rule; paths beyond the bound are counted in the evidence (`loop_cuts`). Known collections are followed exactly.
* Failure is explored, not sampled: a rule says which boundary calls may raise what, and the path set contains every such failure.
* A time budget (`PSA_SECONDS`) and path limits end an analysis with exit 2 rather than with a silent "ok"; every rule declares a minimum
  number of obligations, so an analysis that finds nothing to analyse is a violation, not a success.

`psa/pwsh.py` is a small front end for the PowerShell scripts shipped with the client (C17): tokens, statements and blocks, with the
same kind of path enumeration.

`psa/prelude.py` holds Python definitions of the parts of the standard library that take callbacks or iterators (`itertools`, `map`,
`functools.reduce`, `operator`, `contextlib`); the interpreter follows them like code of the package. Two authoring aids guard against
alarms on harmless edits: a list of about 250 small idioms whose analysed result is compared with the interpreter's own, and rewrites of
every module (helpers extracted, loops turned to comprehensions or `itertools`, dataclasses, decorators, generators, `match`), each of which
passes the tests and must leave all checks quiet.

What a rule judges is outcomes (what reached the wire, in which order, with which values; what state is left; which error left), not how
the code is written: names of locals, helpers, order of independent statements, comprehension against loop, `%` against f-string make no
difference. Constructs are named in violations by function and scenario; the message names file and line.

Trusted: the Python semantics as modelled in `psa/interp.py`; the models of the external libraries named above; the protocol tables in the rules
(MS-PSRP codes, tags, state machines; MS-WSMV URIs; RFC 5929), which are written from the specifications and the library's documentation, not
read from the code under analysis.

## What the family cannot decide here

C32 (value equality after a round trip), C33 (byte size of an envelope) and C34 (termination) quantify over run-time values or over the server's
behaviour; see `not_applicable` in MANIFEST.json. What is decidable of them is covered: C28/C29 (tag, type, escape and cross-talk), C02 (fragment
budget), C12/C19 (loops poll only while running and stop at the final states).

The other limits, which apply to every rule: collections are generic up to two elements (three or more behave as a repetition of these); threads are
not interleaved (the thread-locality of C24/C25 is decided by where the state is kept, not by schedules); integer ranges that matter as a range are
linear forms, but byte-level tables (code points in C28, versions in C30, lengths in C10) are covered by classes with both edges of each class.

## Properties

Times are one quick run on this machine. `thorough` runs the same rules over larger scenario sets where the rule has one.
"""

NOTES = {
    "C01": ("Every public operation that turns a message into fragments (pool open/connect/limits/availability/reset/key exchange/host answers; pipeline create, input, connect) is run with the fragmenter replaced by a producer of 1, 2 or 3 distinct fragments of that very message. On every completing path the wire calls must carry each fragment once, in order, as itself or its base64 text.", "fragment counts 1-3, every operation found by an independent scan for fragmenting calls (rule `sites`)", "recorded sessions fit one fragment"),
    "C02": ("Fragmenter.fragment/fragment_multiple are run on a message of unknown length under an unknown limit; slices of the message are terms with linear offsets, and must tile it.", "one, two, three slices of one message; up to three messages sharing fragments", "boundary arithmetic ranges over all lengths"),
    "C03": ("One step of Fragmenter.defragment from an arbitrary buffer (absent, or an entry with unknown contents) for every combination of start/end flags and matching or other number; since the step is arbitrary, it is an induction over all sequences.", "streams of 1-2 fragments per step", "interleavings are never replayed"),
    "C04": ("The tables MessageType / decode table / MESSAGE_TYPE of each class / handler dispatch are evaluated from the source and compared with MS-PSRP 2.2.1; header offsets and widths are read off pack and unpack terms.", "all message types", "recorded sessions contain few types"),
    "C05": ("poll_invoke is run over a scripted batch of each record kind, mixed batches, and batches spread over several polls; the stream lists of the final heap are compared with the messages.", "batches of up to three records", "a swapped stream shows only for its kind"),
    "C06": ("All WSMan operations against a response with unknown header: every returning path must contain a comparison of its relates-to with the message id of its own request that was found equal.", "13 operations, response header present, absent, malformed", "the mock always answers correctly"),
    "C07": ("All operations against each class of HTTP status and each way a body can be a fault or not; and the three polling layers against each fault.", "statuses 200-599 by class and neighbouring values", "a few statuses are mocked"),
    "C08": ("The send loop with every position (handshake, request) timing out or failing otherwise, for every operation and resend limits 0-3; the number and order of HTTP exchanges of each path is checked, and that a fresh authentication precedes a resend.", "limits 0-3, all operations", "timeouts are mocked in one or two places"),
    "C09": ("Construction and one request for every combination of TLS, encryption setting, authentication protocol; the body of every HTTP exchange must be the sealed form of the request when policy requires it.", "all combinations", "tests sample combinations"),
    "C10": ("wrap and unwrap on symbolic messages; emitted bytes are read as a layout, returned plaintext must be guarded by its size check.", "0-3 parts, all protocols, length classes around 16 KiB", "damage at a later part is not replayed"),
    "C11": ("Every pool operation in every state of MS-PSRP 3.1.1.2; failing and succeeding requests; both results are compared with the operation's specified transition.", "all states x operations x replies", "tests follow the good path"),
    "C12": ("As C11 for pipelines, with command registration and polling.", "all states x operations", "tests follow the good path"),
    "C13": ("begin_invoke/invoke with input given as list, generator, single value, falsy value, None elements, and none; the sequence of input and end-of-input messages is read.", "0-2 items", "odd inputs are untested"),
    "C14": ("Each request of the pool against replies to itself, to others, negative ones, and none; the table of waiting requests is part of the abstract state.", "up to two foreign replies before the own", "replies come in one order in the recordings"),
    "C15": ("The exchange over all orders of key messages and clock readings; the cipher term must be AES of the decrypted blob; package scan for other writers of the cipher; secure strings must leave only under the encryptor.", "six orders, four timeouts", "needs the right message order"),
    "C16": ("Two layers. Secrets as marked values: sessions for every authentication, TLS and answer, refused configurations, the 401 handshake, the key exchange, serialising and packing secure strings, received data, and the string forms of all objects holding secrets; no log, warning, exception, URL, header, body or string form may contain the mark unless through length, comparison, the security libraries or the encryptor. And a package-wide taint of every argument of a log call, warning, print or exception from names and attributes that hold secrets.", "logging is treated as enabled at every level", "tests never look at logs"),
    "C17": ("copy and fetch over a modelled file system and pool, failing at every step; the PowerShell halves are parsed and their paths compared (move only after equal hashes; temporary removed).", "files of 0-2 generic chunks", "failures in the middle are not replayed"),
    "C18": ("The helpers with each step failing; the shell or pool is closed exactly once; results are terms over the reply.", "two replies, each failing step", "failure paths are not replayed"),
    "C19": ("WinRS/Process operations over known reply trees, and all histories of up to four events for open/close.", "histories of length 4", "histories are not enumerable by tests"),
    "C20": ("Each operation's document is read back as a tree: action, header, options, selectors, body.", "0-2 options and selectors with unknown texts", "the recordings fix one document each"),
    "C21": ("Timeouts as linear terms from the public call to the HTTP exchange, which must exceed the wire value by a constant.", "every call with a timeout", "mocks ignore timeouts"),
    "C22": ("Session settings in force at each exchange for each configuration and environment.", "all listed configurations", "mocks ignore TLS settings"),
    "C23": ("The handshake for every configuration, offered header and certificate signature; the arguments the security context gets are compared with the configuration.", "ten offers, seven signature kinds", "no real handshake in the tests"),
    "C24": ("is_alive with each outcome of its request; the connect hook is evaluated before, during and after, in this and another thread.", "all adapters and pool managers of a session", "no sockets in the tests"),
    "C25": ("Sessions are built repeatedly over a modelled class table; a scan of every module for writes into HTTP libraries.", "up to three adapters", "needs several sessions in one process"),
    "C26": ("run_method for every id on a host with all, some or no parts; the answers to batches of host calls.", "ids 0-60, 1-2 calls", "few ids are in recordings"),
    "C27": ("Every protocol object class is constructed and serialised abstractly with generic values.", "all classes found in the package", "most classes are never serialised by a test"),
    "C28": ("Every tag and type both ways, with generic values and each class of code points (control, surrogate, non-characters, escapes).", "classes of code points with both edges", "tests use printable text"),
    "C29": ("Heap snapshots of type descriptions and values before and after; each element compared with the same element alone.", "sequences of up to three elements over 12 kinds", "cross-talk needs particular neighbours"),
    "C30": ("The comparison over a grid of versions; each gated operation for each negotiated version.", "versions 2.0-2.10, 3.x, missing parts", "one version per recording"),
    "C31": ("Class hierarchy, each raise site by inferred type, and every error a faulty answer or state can provoke.", "all raise sites of the package", "error types are asserted in few places"),
    "C35": ("Enumerated sequences of building calls are interpreted, then begin_invoke and the real serializer; the message read back from the element tree is compared with an independent model of the builder.", "25 pipelines, 21 merge settings, 3 versions, 40 option sets, 8 repeated invocations", "recordings cover a few pipelines invoked once"),
    "C36": ("The constructor, open, connect and metadata requests are interpreted for each setting; messages, shell body and options are read back and compared.", "11 settings, 5 argument sets, 4 hosts, 6 shells", "mocks ignore what is sent"),
}

HISTORY = """
## Defects found and repaired

Each was reported by a check on the original tree, shown against the real code, and repaired in one `fix:` commit (list:
`known_findings.json`). With a fix undone, its check reports it again.

"""

OPEN = """
Open (recorded, not repaired): C29 `element`, "an object without type names after a primitive element, in a list whose elements have no
declared type": reading `<LST><I64>0</I64><Obj>..</Obj></LST>`, the tag of the first element stays in the description shared by the elements and the
object is handed back as XML text. The documented behaviour of `PSHostUserInterface.WriteProgress` and the existing tests rely on this, so it is not
a small repair.

## False alarms met and what was corrected

* C15: the first statement asked for a key exchange per secure string; the code refuses without a key instead. Statement corrected.
* C06: required one particular error class for a missing relates-to; any error of the library is enough.
* C26: `getattr` with the name of an unknown method identifier was judged as running a method of that name for identifiers without one; the rule
  now enumerates identifiers. `HostMethodIdentifier()` without value is not a protocol message.
* C28: an empty text as date sample, the `Enum` base class and `CommandMetadata`/`CommandType` without a description were judged as values; they are not.
* C16: the default string form of an object does not show its attributes; only own string forms and `__dict__`/`vars` do.

Behaviours noted but not claimed as defects (outside the stated properties or documented otherwise): `had_errors` is kept when a pipeline is invoked again;
pools from `get_runspace_pools` have no selector set of their own until connected; `fetch` of an empty remote file fails safe; the README and the code differ on
the default of `negotiate_service`; `Process(id=...)` is documented but not sent; `WinRS.receive` raises KeyError for a stream that was not asked for;
an option `protocol_version` that is no version gives ValueError.

## Planted bugs

Each is a patch against /repo's HEAD with a demonstration; none is read by a check. All were written from the property texts; where a check missed one,
the rule was strengthened before it was kept (last column).

"""


def rules(i):
    s = open(os.path.join(R, "psa/rules/c%s.py" % i[1:])).read()
    tech = re.search(r'^TECHNIQUE = "(.*)"', s, re.M).group(1)
    return tech, re.findall(r'rep\.rule\("(\w+)", "((?:[^"\\]|\\.)*)"', s)


def main():
    out = [HEAD]
    for line in open(os.path.join(R, "properties.jsonl")):
        p = json.loads(line)
        out.append("\n### %s %s\n" % (p["id"], p["title"]))
        if p["id"] not in NOTES:
            na = next(x for x in json.load(open(os.path.join(R, "MANIFEST.json")))["not_applicable"] if x["property"] == p["id"])
            out.append("Not applicable: %s\n" % na["reason"])
            continue
        tech, rs = rules(p["id"])
        what, bounds, why = NOTES[p["id"]]
        ev = os.path.join(R, "design", "cost.json")
        cost = json.load(open(ev)).get(p["id"]) if os.path.exists(ev) else None
        out.append("%s\n\nTechnique: %s. Bounds: %s. Why beyond tests: %s.%s\n" % (
            what, tech, bounds, why, " Cost: about %d s, %d obligations over %d paths." % tuple(cost) if cost else ""))
        out.append("".join("\n* `%s`: %s" % (a, b.replace("%s", "the library's error type")) for a, b in rs) + "\n")
    out.append(HISTORY)
    for f in json.load(open(os.path.join(R, "known_findings.json")))["findings"]:
        if f["status"] == "fixed":
            m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", f["text"])
            out.append("* %s (`%s`): %s\n" % m.groups())
    out.append(OPEN)
    out.append("| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n")
    for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
        m = json.load(open(f))
        out.append("| %s | %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"],
                                                   m.get("caught_by", m["property"])))
    open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))


if __name__ == "__main__":
    main()
