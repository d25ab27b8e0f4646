import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TLC="TLA+/TLC: "
C={
"C01":(TLC+"HSMM.tla enumerates every admissible hidden history with its factors; the real log-likelihood is replayed against the sum over these behaviours","Exhaustive over histories within small state/length/duration bounds and flag combinations; larger sizes through the recursion of the specification, which TLC checks against the enumeration. Densities are recomputed independently in floating point (tolerance 1e-8)."),
"C02":(TLC+"decoded histories are validated as traces of HSMM.tla (HSMMTrace.tla) and compared with the best enumerated behaviour","Admissibility by trace validation, maximality against all behaviours TLC enumerates (small sizes) or the model-checked max-recursion (large sizes)."),
"C03":(TLC+"sampled histories are validated as traces of HSMM.tla and their frequencies tested against the normalised weights of all enumerated behaviours","Admissibility is exact; the distribution is decided by goodness-of-fit with false-alarm probability 1e-11 per test and a fixed seed."),
"C04":(TLC+"derivatives of the sum over the behaviours of HSMM.tla (central differences) against the real gradient, per coefficient","Same bounds as C01; oracle derivative by finite differences of the enumerated sum, relative tolerance 2e-4."),
"C05":(TLC+"behaviour prefixes of HSMM.tla give the one-step-ahead mixture each residual must equal; duration residuals recomputed from trace-validated histories","Exhaustive over prefixes for small sizes and all flags/residual types; floating point tolerance."),
"C15":(TLC+"HSMMSim.tla enumerates every simulated state sequence with its factors; real simulations are matched against these behaviours and probabilities","State sequences: membership exact, frequencies by goodness-of-fit; emissions by distribution tests given the simulated state; reported probabilities compared exactly (1e-8)."),
}
import os
ext='/verif/tools/claims.json'
if os.path.exists(ext): C.update({k:tuple(v) for k,v in json.load(open(ext)).items()})
NA={}
ext='/verif/tools/na.json'
if os.path.exists(ext): NA.update(json.load(open(ext)))
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[],
 notes="Specifications are TLA+ modules in spec/, checked with TLC by every check run; see DESIGN.md. Known findings: known_findings.json.")
for p in props:
    i=p['id']
    if i in C:
        m['checks'].append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",technique=C[i][0],level=C[i][2] if len(C[i])>2 else "model_checking",level_note=C[i][1]))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"check under construction")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import subprocess
subprocess.run(["python3-vt","-c","""
import json,jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print('manifest ok')"""])
