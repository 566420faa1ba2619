SPECIFICATION Spec
CONSTANTS FIRST = 2444200
 LAST = 2444265
 ZWEEK = 403200
 ZDAY = 57600
INVARIANTS Civil Yds Weeks5 ZGrain Over
