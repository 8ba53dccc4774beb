#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
T={
"C01":("property-based testing against big-integer modular arithmetic, plus every pair for small primes","reference: num-bigint integers reduced by the harness"),
"C02":("property-based testing against square-and-multiply written in the harness, plus every base for small primes","reference: modular exponentiation over num-bigint"),
"C03":("property-based testing: residue test against the Jacobi symbol, roots squared back","reference: Jacobi symbol over num-bigint"),
"C04":("property-based testing against parity of the printed representative, and the sign/negation relation","reference: parity over num-bigint"),
"C05":("property-based testing against pairs of integers modulo p with i^2=-1, plus every pair for small primes","reference: GF(p)[i] over num-bigint"),
"C06":("property-based testing: residue test against the norm and brute force, roots squared back","reference: GF(p)[i] over num-bigint; brute force for small p"),
"C07":("property-based round trips and differential against big-integer byte/text conversion","reference: num-bigint byte and digit conversion"),
"C08":("property-based testing against integers modulo r on the three models, plus every pair for small r","reference: num-bigint integers reduced by the harness"),
"C09":("property-based differential testing against affine chord-and-tangent addition, plus every pair of points of toy curves","reference: affine group law over num-bigint"),
"C10":("property-based differential testing against affine addition on by^2=x^3+ax^2+x, plus every pair of points of toy curves","reference: affine group law over num-bigint"),
"C11":("property-based differential testing against the affine twisted Edwards law, plus every pair of points of toy curves","reference: affine group law over num-bigint"),
"C12":("property-based differential testing against double-and-add on the affine reference, linearity relations, every scalar on toy curves","reference: affine group law over num-bigint"),
"C13":("property-based metamorphic testing over ten internal representations of each point","reference: affine coordinates parsed from the printed point"),
"C14":("property-based testing of constructors on points and near misses against the curve equation, plus every coordinate pair of toy curves","reference: curve equation over num-bigint"),
"C15":("property-based differential testing against an encoder written in the harness, with decode round trips","reference: SEC1 / RFC 8032 layout written in the harness"),
"C16":("structure-aware fuzzing of the decoders against a reference decoder, plus every short string on toy curves","reference: decoder written in the harness"),
"C17":("differential testing of the built-in curves against published parameters, OpenSSL/Node vectors and the reference group law","trusts the published constants and OpenSSL 3 vectors committed under harness/data"),
"C18":("property-based testing: r*(h*P) is the identity for generated P, on and off the subgroup","reference: affine group law over num-bigint for building P"),
"C19":("property-based testing against the published maps, homomorphism and inverse relations, every low-order point","reference: rational maps over num-bigint"),
"C20":("property-based testing against Velu's formulas on the kernels found by the harness, homomorphism relations","reference: Velu's formulas over num-bigint"),
"C21":("property-based differential testing against simplified SWU written in the harness, every input on toy curves","reference: straight-line SSWU over num-bigint"),
"C22":("property-based differential testing against SSWU followed by Velu's isogeny, toy isogenies supplied by the harness","reference: SSWU and Velu over num-bigint"),
"C23":("property-based differential testing against Shallue-van de Woestijne written in the harness, every input on toy curves","reference: straight-line SvdW over num-bigint"),
"C24":("property-based differential testing against Elligator 2 written in the harness, every input on toy curves","reference: Elligator 2 over num-bigint"),
"C25":("property-based differential testing against Elligator 2 followed by the reference rational map","reference: Elligator 2 and rational maps over num-bigint"),
"C26":("property-based testing of constructor acceptance against predicates written in the harness","reference: admissibility predicates over num-bigint"),
"C27":("property-based testing that every mixed operation is refused and every same-instance operation agrees","refusal = panic, observed with catch_unwind"),
"C28":("randomised concurrent schedules (barrier races on eight threads) against a single-threaded run","explores the schedules the machine produces, not all of them"),
"C29":("model-based stateful testing of operation histories against the same operations on fresh instances","the repetition on a fresh instance is the oracle"),
"C30":("stateful testing of sessions under a counting allocator: live heap must not grow when repeated","counts allocations of the running thread"),
"C31":("property-based testing of generated parameter sets, notations and one-entry changes against the numbers they were made from","curve coefficients are read from the printed form"),
"C32":("property-based testing of protocols over the generic interfaces against the affine reference group","reference: affine group law over num-bigint"),
"C33":("stateful testing with injected refusals: model-based histories compared with the reference and with fresh instances","refusal = panic or error result"),
"C34":("property-based differential testing of whole hash-to-curve pipelines against the reference maps and group law","reference: maps, isogenies and group law over num-bigint"),
"C35":("property-based differential and metamorphic testing of algorithms over the generic field interfaces","reference: the same algorithms over num-bigint"),
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    i=p['id']; t,n=T[i]
    checks.append({"property":i,"quick_cmd":f"./check {i}","thorough_cmd":f"VERIF_TIER=thorough ./check {i}",
      "technique":t,"level":"exploration",
      "level_note":f"Holds on every generated case of the run (counts and samples in the evidence file); {n}. Not a proof: inputs outside the generated ones are not covered."})
m={"version":1,"setup_cmd":"./check build","checks":checks,"not_applicable":[],
 "notes":"No hooks: the harness uses only the public API. Replay a failure with ./check replay <file>."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(checks))
