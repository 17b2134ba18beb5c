import json,sys
sys.path.insert(0,'analysis')
props=[json.loads(l) for l in open('properties.jsonl')]
T={
 "L01":("abstract interpretation of THIR: inductive loop summaries, region-wise term comparison","Universal over sizes and contents in exact arithmetic; trusts rustc's front end, the library models and the analyser."),
 "L02":("abstract interpretation of THIR: arg-max fold recognition and dependence of the recorded pivot","As L01."),
 "L03":("abstract interpretation of THIR: path conditions of the error exits and error-value dataflow","As L01."),
 "L04":("abstract interpretation of THIR: loop-stage summaries compared with the reference stages","As L01; together with L01 this gives A x = b in exact arithmetic."),
 "L05":("effect (write-set) and dependence analysis over THIR","Universal over initial contents and histories."),
 "L06":("linear-inequality bounds obligations at every index and unsigned subtraction","Universal over dimensions; library calls outside the models are reported, not assumed safe."),
 "L07":("abstract interpretation of THIR: result terms and write sets of the queries, dependence analysis of the solve on the tolerance","Universal over solver states, tolerances and scaling vectors."),
 "N01":("typestate analysis over THIR with callbacks as nondeterministic automaton, fixpoint over loop heads","Universal over problems and callback results; trusts analyser and models."),
 "N02":("typestate plus value-numbering of the vectors passed to callbacks","As N01; vector arithmetic exact."),
 "N03":("typestate fixpoint with progress check on every cycle of the abstract graph","As N01."),
 "N04":("typestate fixpoint with difference constraints between iteration index and limit","As N01; limit >= 1."),
 "N05":("typestate (error discipline) and constructor dataflow of the error conversion","As N01."),
 "N06":("typestate with argument value-numbering of setup calls and flag tracking","As N01."),
 "N07":("typestate with ghost counters and getter summaries","As N01."),
 "N08":("abstract interpretation of THIR: fold summary and term equality","Every length and content in exact arithmetic; lengths below 2^32."),
 "N09":("dependence analysis from symbolic pre-state to branches, callback arguments and results","As N01."),
 "N10":("abstract interpretation of THIR: getter terms on the constructed value, write-set analysis of preparation and queries","Universal over solver states and limits."),
 "S01":("abstract interpretation of THIR, order partitioned over 1..5: path conditions of refusals and delivered terms","Length, history, times and step symbolic, both directions; src/ is type-checked over stand-in crates (it is not built by the workspace); trusts their signatures and the library models."),
 "S02":("abstract interpretation of THIR: outcome conditions and delivered terms compared with the reference decision tree","As S01, orders 1 and 2, both task modes."),
 "S03":("abstract interpretation of THIR: outcome conditions and delivered terms compared with the reference decision tree","As S01, orders 1 and 2, both task modes."),
 "S04":("abstract interpretation of THIR with an inductive cut of the retry loop, trace-partitioned over order, last order and equal-step count: restored state and history terms","Any history, step size, length, user functions and nonlinear solver; exact arithmetic; maxnef >= 3; as S01 for src/."),
 "S05":("abstract interpretation of THIR with an inductive cut of the retry loop: back-edge and error-exit conditions against the retry limits","As S04."),
 "S06":("abstract interpretation of THIR with an inductive cut of the retry loop: path conditions of acceptance and rejection entail the error test","As S04."),
 "S07":("abstract interpretation of THIR with an inductive cut of the retry loop: order and step size after a step against the reference decision tree","As S04."),
 "S08":("abstract interpretation of THIR with an inductive cut of the stepping loop: path conditions of steps taken and refused; driven functions as nondeterministic automata","Any history, length, settings and verdicts of the driven functions; as S01 for src/."),
 "S14":("typestate/event traces of the driver over the root search's verdicts; abstract interpretation of the root search with an inductive cut of its loop, partitioned over its counters","Two root functions (any values); any history, interval and tolerance in exact arithmetic; as S01 for src/."),
 "S18":("abstract interpretation of THIR: first-step decisions and state at loop entry against the reference decision tree","As S08."),
 "S19":("abstract interpretation of THIR: decision tree of the convergence test as terms over all inputs","As S09; exact powers."),
 "S20":("abstract interpretation of THIR: coefficient terms against the reference formula, per order and count of equal steps","As S09; orders 1 to 5."),
 "S21":("event-trace analysis over THIR with the nonlinear solver as nondeterministic automaton","As S11; any nonlinear solver; constraints unset."),
 "S22":("abstract interpretation of THIR to residual terms, symbolic differentiation and trigonometric normalisation","Exact arithmetic; sine and cosine by their addition formulas."),
 "S23":("abstract interpretation of THIR: residual and root terms for symbolic states","Exact arithmetic."),
 "S24":("abstract interpretation of THIR to symbolic values, differentiation of the reference polynomial, per order and derivative","As S01; orders 0 to 5, derivatives 0 to 5, any time, history and length."),
 "S25":("abstract interpretation of THIR with an inductive cut of the retry loop: polynomial identities of the history at its nodes","As S04."),
 "S26":("abstract interpretation of THIR: terms of the constructor's result, arguments of the solvers' constructors","Every model size, initial vectors and number of root functions. src/ is type-checked over stand-in crates; trusts their signatures and the library models."),
 "S09":("abstract interpretation of THIR: element-wise loop summary compared with the formula","Every length, content and tolerance in exact arithmetic. src/ is type-checked over stand-in crates (it is not built by the workspace); trusts their signatures and the library models."),
 "S10":("abstract interpretation of THIR: fold summary and term equality","As S09."),
 "S11":("abstract interpretation of THIR with the order partitioned over 1..5: term equality and write sets","As S09; length, history, coefficients and user functions symbolic; any nonlinear solver."),
 "S12":("typestate/event-trace analysis over THIR with the linear solver as nondeterministic automaton and value-numbered arguments","As S11; any linear solver."),
 "S13":("abstract interpretation of THIR and symbolic differentiation of the residual terms","As S09, for the bundled kinetics problem."),
 "S15":("constant evaluation over THIR and abstract interpretation of the constructor","As S09."),
 "S16":("abstract interpretation of THIR: result term and write set of every getter","As S09."),
}
import check
NA=json.load(open('tools/na.json'))
checks=[]
for p in props:
    i=p['id']
    if i in check.CHECKS:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd="python3 analysis/check.py %s"%i,thorough_cmd="python3 analysis/check.py %s --thorough"%i,technique="static analysis: "+t,level="other",level_note=n))
m=dict(version=1,setup_cmd="python3 analysis/setup.py",checks=checks,
 not_applicable=[dict(property=p['id'],reason=NA.get(p['id'],NA['*'])) for p in props if p['id'] not in check.CHECKS],
 notes="All checks decide from rustc's typed THIR of /repo's current tree; see DESIGN.md. KNOWN_FINDINGS.txt lists findings and fixes.")
json.dump(m,open('MANIFEST.json','w'),indent=1)
