import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).splitlines()
def h(sub):
    m=[l.split()[0] for l in log if sub in l]; assert len(m)==1,(sub,m); return m[0]
F=[("C01","tile 0","a discard of tile number 0 (first 1m) stayed invisible (truth value of 0)"),
("C01","invisible 1m and 9m","three-player invisible tiles held tuples, not numbers, for 1m and 9m, so they never became visible (also C08)"),
("C02","faan counts","the yaku list of a winner also named yaku whose id equals a faan count"),
("C04","simultaneous translations","lazily interleaved or threaded translations shared the state of the module level translator"),
("C08","merge the reasonings","normal and seven-pair reasonings were merged by position, not by the tile discarded"),
("C08","complete hand can be","a report failed when the player discarded from a complete hand"),
("C08","no useful tile left","ZeroDivisionError when the best discard has no useful tile left"),
("C08","tenhou indices of a red five","useful tiles of a red five pointed at other tiles"),
("C09","decimal digits","a player number such as a superscript two ended the tool with ValueError"),
("C09","no legal file name","a player name with a slash or other reserved character made the report unwritable or land elsewhere"),
("C12","share their bound","interleaved searches of one analyser shared the bound and gave wrong steps and tiles"),
("C12","leaves its order alone","printing or matching a hand re-sorted it in place under other users"),
("C12","only when it is complete","a tile cancelled or used concurrently during its first construction stayed without units"),
("C05","cleared in place","clear() changed a state in place"),
("C10","nothing wins","the win rate tool failed when nothing won or pick rates were complex"),
("C05","defaulting an existing key","setdefault of an existing key returned only the nested part of the state"),
("C08","each red five once","a hand with a red five and plain fives showed the red five as many times as there are fives"),
("C13","takes nothing from a later group","resuming a group left behind swallowed an element of the newest group"),
("C06","survive reloading","names such as NA, null or 007 and missing text cells were altered by the CSV readers"),
("C08","only begins like","an event of unknown kind whose name begins like a draw or discard (V2X) moved a tile (also C01)"),
("C08","reasonings by kind of hand","the sections of reasonings by kind of hand were always empty"),
("C15","event of the log can be displayed","repr() of any event of a record raised TypeError"),
]
with open('/verif/KNOWN_FINDINGS.txt','w') as f:
    f.write("# Genuine defects found by the checks.  'known:' entries suppress the listed signature only, 'fixed:' entries suppress nothing.\n# known: property=<id> signature=<kind> <what fails>\n# fixed: property=<id> <commit> <what failed>\n")
    for p,s,t in F: f.write("fixed: property=%s %s %s\n"%(p,h(s),t))
