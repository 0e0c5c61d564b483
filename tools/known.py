import subprocess
log={}
for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1); log[s]=h
F=[("C04","fix: use the Box Cox parameter given as a float in all POD classes","a float boxCox was replaced by the optimised parameter in the POD classes"),
("C04","fix: shift signals containing zero before the Box Cox transformation","boxCox with a null signal gave infinite transformed signals"),
("C10","fix: quantile regression Box Cox parameter overwritten by the bootstrap","getBoxCoxParameter and the likelihood graph were those of the last bootstrap resample"),
("C08","fix: linear POD confidence level model after changing the simulation size","getPODCLModel failed or ignored curves after setSimulationSize without run"),
("C09","fix: probability and confidence levels truncated in the detection size labels","level 0.29 was labelled a28"),
("C17","fix: PODSummary.drawGraphs without probability level or with a given Box Cox value","drawGraphs raised without probabilityLevel or with a float boxCox"),
("C17","fix: separate the residuals and validation results in PODSummary.saveResults","two sections were written on the same line"),
("C18","fix: do not change the defect sizes when the given values are rejected","rejected defect sizes replaced the previous ones"),
("C12","fix: keep the kriging POD and POD at confidence level inside [0, 1]","the kriging POD curves could exceed 1 or be negative"),
("C13","fix: update the covariance parameters in AdaptiveSignalPOD when Q2 is low","run raised when Q2 < 0.95"),
("C20","fix: validation graph of AdaptiveSignalPOD","drawValidationGraph raised for AdaptiveSignalPOD"),
("C12","fix: KrigingPOD with a kriging result given by the user","setKrigingResult was rejected or evaluated in the wrong coordinates"),
("C11","fix: default distribution of PolynomialChaosPOD with a result given by the user","run raised with a user result and no distribution"),
("C14","fix: candidate selection in AdaptiveHitMissPOD when the probability interval is empty","run raised when no candidate was in [pMin, pMax)"),
("C20","fix: create the graph directory in AdaptiveHitMissPOD","run raised when the graph directory did not exist"),
("C14","fix: AdaptiveHitMissPOD with a detection value and no physical model","the constructor raised"),
("C03","fix: underflow of the censored likelihood","censored observations 8 standard deviations away from the line stopped the analysis"),
("C03","fix: degenerate initial simplex of the censored likelihood maximisation","an intercept or slope near 0 at the least squares fit was not optimised"),
]
import os
if os.path.exists("/verif/tools/fixes_extra.txt"):
    for l in open("/verif/tools/fixes_extra.txt"):
        F.append(tuple(l.rstrip("\n").split("|")))
used=set()
out=[]
for p,s,t in F:
    assert s in log,s
    used.add(s)
    out.append("fixed: property=%s %s %s"%(p,log[s],t))
for s in log:
    if s.startswith("fix") and s not in used: print("MISSING",s)
find=open("/verif/tools/findings.txt").read()
open("/verif/known_findings.txt","w").write("# Genuine defects of openturns/otpod. 'finding' entries are reported as KNOWN-FINDING and are\n# identified by the key the check computes from the failing input; 'fixed' entries suppress nothing.\n"+find+"\n".join(out)+"\n")
