m={"30f9754":"C02","e05f51b":"C02","c3baa5b":"C03","6f3fc25":"C04","a4b56bf":"C04","15a0396":"C06","357dfba":"C08","9548710":"C08","e872fc5":"C07","12b1ac1":"C09","ceb7be4":"C18","fa58ab6":"C10","b66d294":"C11","f4e62ff":"C12","2cf9678":"C13","9a7fa88":"C13","fd060a4":"C14","650ffcd":"C14","0791cac":"C15","e8c19a6":"C07","e926f37":"C17","37a2564":"C18","484043d":"C19","860f121":"C19","e8ce68d":"C20","5b73369":"C20","1559807":"C20","8378a0a":"C19","ca42086":"C22","7f8e326":"C25","1248803":"C25","6d6e680":"C25","c4ec2cc":"C25","76a75c3":"C26","a65cc10":"C27","68925be":"C27","9ad2f2c":"C27","b7a621e":"C27","a8dc21e":"C33","541a5b2":"C33","3f480e3":"C30","fba8aa7":"C31","aac7bbc":"C32","39cd113":"C32","95a8de6":"C32","73c7700":"C07","27b63b7":"C03"}
import subprocess
o=["# one JSON object per known finding (property, entry, msg, optional params, what); lines \"fixed: ...\" record repaired defects and suppress nothing"]
for l in subprocess.check_output("git -C /repo log --reverse --format='%h %s'",shell=True,text=True).splitlines():
    h,_,s=l.partition(' ')
    if s.startswith('fix: '):
        o.append(f"fixed: property={m[h]} {h} {s[5:]}")
open('/verif/known_findings.jsonl','w').write("\n".join(o)+"\n")
