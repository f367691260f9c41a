import subprocess
M={
    "parallel simulation with a failing worker": ["C16"], # subject prefix -> properties
"medium beyond":["C03","C04"],"engine kernel picks":["C03","C04"],"ray inside a non-convex":["C03"],"engine emits along":["C06"],
"spectrum CDF accounts":["C10","C06"],"sphere intersections":["C07"],"cylinder normals close":["C03","C07"],"surface interactions keep":["C02","C03"],
"propagating a ray":["C02"],"engine histories that run":["C24","C01","C14"],"engine runs no more":["C13"],"recorder histograms counted":["C14"],
"read scene files without":["C19"],"spectrum files of whole":["C19"],"components may have only":["C19"],"light masks may be":["C19"],"rays of different workers":["C16","C17"],"scenes with too many nodes":["C15"],"cylinder surface points":["C07"],"material of spheres":["C07"],"box points within":["C07"],
"nodes placed with integer":["C08"],"look_at was off":["C08"],"distributions with some":["C10"],"histogram CDF could":["C10"],
"distributions accept any":["C10"],"Henyey-Greenstein directions":["C09","C06"],"lights emit until":["C09"],"engine ignored what":["C09"],
"engine emitted from":["C09"],"engine traced rays":["C09","C15"],"streamed bundles":["C12","C09"],"engine compiled subclasses":["C15"],
"time lost, reacted":["C18"],"count lost does":["C18"],"json output of spectra":["C18"],"histograms of values equal":["C18"],
"components given a whole":["C05","C19"],"recorders on nodes without a geometry":["C14","C15"],
"photons at the critical angle":["C04"],"histogram emission exceeds":["C06"],"photons heading for the world":["C05"],"engine wrote outside of its event log":["C13"],"studio finds data files":["C20","C22"],"studio does not apply":["C20"],"the parser reads what":["C19","C20"],"studio can delete":["C20"],"studio run uses":["C21"],"studio run announces":["C21"],"studio stops the current":["C21"],"studio reports runs":["C21"],"studio edits keep":["C20"],"studio uploads stay":["C22"],"LSC ":["C23"],"specular air gap":["C23"],"near and far facets":["C23"],"renderer ":["C25"],"simulate fails when":["C17"],"large histograms overflowed":["C13"],"histograms with an unbounded range":["C13"],
}
exec(open('/verif/tools/kf_extra.py').read()) if __import__('os').path.exists('/verif/tools/kf_extra.py') else None
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','543cf30..HEAD'],text=True).splitlines()
out=["# Known findings (see DESIGN.md). 'known:' lines name a violation key that is reported as KNOWN-FINDING;",
"# 'fixed:' lines record repaired defects and suppress nothing.",""]
for l in log:
    h,s=l.split(' ',1)
    assert s.startswith('fix: ')
    s=s[5:]
    ids=[v for k,v in M.items() if s.startswith(k)]
    if not ids: print("UNMAPPED",s); continue
    for p in ids[0]: out.append(f"fixed: property={p} {h} {s}")
out+=KNOWN if 'KNOWN' in globals() else []
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','KNOWN_FINDINGS.txt'),'w').write("\n".join(out)+"\n")
