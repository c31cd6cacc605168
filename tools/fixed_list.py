import subprocess
m={"d84b191":"C05","7fc29bb":"C04","e5c382e":"C05","2ecfe37":"C16","da982ca":"C16","a6ebbc6":"C18","9a60a5f":"C21","1a79bfd":"C21","2e526c3":"C21","0fa21b9":"C21","b658417":"C20","f278d6c":"C25","e4e0ffa":"C25","f87e9f8":"C26","dc1bc5b":"C26","f96bbf5":"C26","a05d5ca":"C25","65a3d02":"C10","59335da":"C09","e99ec5e":"C11","aa59fb6":"C10","5b1f134":"C08","90a5818":"C08","09c941b":"C08","affeaec":"C08","8e1c671":"C08","3d5f5ff":"C08","dec97bd":"C09","021d3f2":"C11","307c625":"C14","ad1ab61":"C12","819edf6":"C12","38db1b4":"C11","a92ad0b":"C11","e86fe85":"C11","6b9b51d":"C11","b7c69b6":"C14","136bb83":"C14","fc30974":"C11","b1408a4":"C11","1321335":"C14","3c7cb2b":"C24","0adde24":"C24","e93082c":"C24","6ac2794":"C24","006584f":"C24","3b9a80e":"C28","fe74bf5":"C29","75ddf23":"C27","29c586d":"C27","6e505ed":"C27","88b3cdb":"C28","6743586":"C28","5af80eb":"C28","cca0d8c":"C28","dd1635e":"C30","00584d0":"C30","78f90e6":"C30","7e5a863":"C31"}
out=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","9c955bb..HEAD"],text=True)
for l in out.splitlines():
    h,_,t=l.partition(" ")
    print("fixed: property=%s %s %s"%(m[h],h,t[5:]))
