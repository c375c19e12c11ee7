SPECIFICATION Spec
INVARIANT NoViolation
CONSTANT Watch = {"effect","orphan","equation","version","dupbalance","notempty","mutated","badstatus","dupid","badamount","overspend","dupref","aftervoid","overcommit","voidamount","dblrefund","refundamount","twooutcomes","childdiffers","noreason","erreffect","acklost","unaccounted","sum","nooutcome","expect"}
CHECK_DEADLOCK FALSE
