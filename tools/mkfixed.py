import json,subprocess
M={"b306c44":"C01","df215cd":"C13","9e86bf2":"C25","1a5db89":"C25","efb3629":"C28","ecb2fa0":"C27","52c4c95":"C26","77a464c":"C25","867e1fe":"C09","fad86eb":"C25","0b17c14":"C24","3870244":"C23","0aa7080":"C22","4988f74":"C22","12ae57d":"C20","d31ebc5":"C20","403a59e":"C25","2016765":"C12","58730f1":"C25","4167946":"C25","0823961":"C07","0f3eb44":"C10","3108e7f":"C13",
"63edf38":"C17","019bfd1":"C09","d87a96e":"C05","6200dd8":"C05","67ef2b0":"C02","83c73f4":"C20","dbe3fb6":"C06","d12b7fa":"C08","c959e6b":"C25","938a925":"C20","9b123c8":"C22","ebc6933":"C22","3ebee69":"C22","4fceeb6":"C23","eb67cd6":"C23","2d6194b":"C23","8849bbe":"C23","107fdef":"C23","d02f4ec":"C23","9a7a1ec":"C19","793099d":"C19","42191a2":"C20","28b22b7":"C25","917e00e":"C01","65dd6e6":"C25","7edeb60":"C05","5014214":"C16","17f56b5":"C09","056a1c3":"C19","f2da20c":"C15","d0d23b3":"C18","2c0fedb":"C19","62801a0":"C02","ec6baf4":"C10","3d68b0c":"C11","c7ecc97":"C17","56f4099":"C03","95b695f":"C05","30e726f":"C13","bf6e73f":"C12","1ea8896":"C09","3227b79":"C08","bdbcfb2":"C08","9f32c51":"C04"}
log=subprocess.run("git -C /repo log --format='%h %s' d074442..HEAD",shell=True,text=True,capture_output=True).stdout.split("\n")
out=[]
for l in log:
    if not l: continue
    h,s=l.split(" ",1)
    if h not in M: print("??",l); continue
    out.append("fixed: property=%s %s %s"%(M[h],h,s.replace("fix: ","")))
k=json.load(open("/verif/known_findings.json")); k["fixed"]=out
json.dump(k,open("/verif/known_findings.json","w"),indent=1)
