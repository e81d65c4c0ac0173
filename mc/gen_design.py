import sys, importlib, json
sys.path.insert(0,'/verif')
T={
"C01":("the log of all evaluations of the call (minimum, and a row that was answered with it)","cost orders, ties, infinities, coincident particles and every topology are enumerated instead of one seeded run"),
"C02":("a two-line reference model of the personal bests replayed on the recorded costs after every evaluation","ties and mixed improvements at every iteration/particle"),
"C03":("the recorded evaluations; the entries are copied when first seen and compared with the lists at the end (aliasing)","snapshots at every evaluation show entries that change later"),
"C04":("an exact reference automaton of the stopping rule","thresholds hit exactly, windows longer than the run, calls with leftovers"),
"C05":("exact comparison with the box","draws at the extremes, corner starts, rounding at awkward boxes, histories of the stateful handlers"),
"C06":("exact comparison with the clamp","every strategy with extreme draws and coefficients, per-dimension clamps"),
"C07":("the product set of all values the formula gives over separate draws","decides independence of the draws, which no seeded run can"),
"C08":("the expected calls, and a never-failed optimizer fed the same draws","a fault at every evaluation followed by every continuation"),
"C09":("the serial run with the same draws","the pool's completion order is a choice of the explorer"),
"C10":("a freshly constructed optimizer fed the same draws","all operation sequences before the reset"),
"C11":("snapshots of the inputs; the same program run alone","all switch points between two optimizers sharing their inputs; thread pre-emption at every line of the library"),
"C12":("the recorded end state of the previous call, C01/C02/C03 monitors per call","sequences of calls, splits at every iteration"),
"C13":("bit-identical repetition in-process and in fresh interpreters","the states of all other generators and hash seeds are varied"),
"C14":("the product set of admissible bits per draw","dependence between bits only shows over all draws"),
"C15":("the documented formulas in exact rational arithmetic where possible","per-iteration use inside the optimizers"),
"C16":("exact k-nearest groups with ties (a set of admissible guides)","all small point sets, coincident points, repeated calls"),
"C17":("closed form of D(d, r) and the C16 oracle","all arguments up to a bound"),
"C18":("graph predicates on the neighbourhoods observed through compute_gbest","all outcomes of the draws"),
"C19":("exact integer in-circle / in-sphere tests","all general-position subsets, scales and offsets"),
"C20":("reference rule","all cost/best vectors with ties and infinities"),
"C21":("fresh topologies under the same scripted draws","all sequences of movements between the calls"),
"C22":("formula of each strategy in exact arithmetic","all combinations of out-of-bounds classes, call sequences on one handler"),
"C23":("formula of each strategy, then the clamp","as C22"),
"C24":("the set of all outcomes over all draws; bounds, shapes, exceptions","element-wise reachability, every side and element of the checks"),
"C25":("the recorded calls and values","every assignment of values, failures and non-scalars at every row"),
"C26":("cartesian product, recorded runs","every winner including ties"),
"C27":("set of all reachable grids, recorded runs","independence of the draws, every winner"),
"C28":("closed forms with Python's math, row by row","whole lattices, every row/column/side of a domain violation"),
"C29":("the history itself, read back from the matplotlib artists","all frame orders, meshes, end-to-end runs"),
"C30":("a reference model of the records, the real handlers in a scratch directory","sequences of reporters and messages"),
"C32":("the table of malformed and well-formed requests written from the documentation; the run without the rejected requests","every element, side and argument in every surrounding configuration, sequences of rejected requests"),
"C33":("the other way of running, fed the logged draws of the first","all draws, configurations, call sequences and spellings; no expected values needed"),
"C34":("the same search with ranks for costs, fed the logged draws","all orders x all recodings x all optimizers; no expected values needed"),
"C35":("the same search in the original space, fed the corresponding draws array by array","scales, mirrorings, permutations and shifts of every configuration; no expected values needed"),
"C36":("the process state before the first operation; weak references to everything made","every operation sequence, also with real logging and real worker processes whose pool threads are delayed after each of their messages"),
"C37":("the call with every default spelled out by keyword","every subset of arguments left out and every positional split, for each callable and setting"),
"C38":("the answers the user's code gave; a reference loop of the documented calls","every sequence of answers of an arbitrary topology; every custom strategy, optimizer and search"),
}
out=[]
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
for p in P:
    i=p['id']
    if i=="C31": continue
    m=importlib.import_module("mc.checks."+i.lower())
    o,r=T[i]
    out.append("**%s %s.**\nHarnesses: %s. *Bounds:* %s.\n*Oracle:* %s. *Beyond the tests:* %s.\n" % (i,p['title'],", ".join(h.name for h in m.HARNESSES),m.BOUNDS,o,r))
s=open('/verif/DESIGN.md').read()
a=s.index("## Properties"); b=s.index("## Not decided by this family")
head='''## Properties

Cost: each quick check takes 1-60 s on 8 cores, the thorough ones from seconds to some minutes.
"Bounds" are quoted from the checks (they are also in the evidence files).

'''
s=s[:a]+head+"\n".join(out)+"\n"+s[b:]
fx=[l.split(" ",3) for l in open('/verif/known_findings.txt') if l.startswith("fixed")]
a=s.index("Repaired in /repo"); b=s.index("Recorded, not repaired")
s=s[:a]+"Repaired in /repo (one `fix:` commit each; also in `known_findings.txt` as `fixed:`):\n\n"+"".join("* %s %s %s\n"%(l[1].replace("property=",""), l[2], l[3].strip()) for l in fx)+"\n"+s[b:]
open('/verif/DESIGN.md','w').write(s)
