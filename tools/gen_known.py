import json,os
F=[
("C10","f9b2fb2","renumber(4,6) then open returned descriptor 6 again, replacing the renumbered one; renumber(4,3) replaced the root descriptor"),
("C22","265b2a1","seek(i64::MIN, CUR), seek(i64::MAX, CUR) and seek(positive, END) overflowed (panic) or wrapped to a wrong position"),
("C02","d66fc82","shrinking a file of the V1 layout to a size inside its first chunk wiped the kept bytes, and left a stray V1 chunk on V2 files and directories (also C16)"),
("C22","5254820","pwrite at u64::MAX overflowed; sizes past the largest chunk index were accepted and their chunks aliased; long V1 reads near the maximum size wrapped the chunk index (also C01)"),
("C02","2d0f679","transient storage kept bytes past the new end on shrinking and showed them again after growing"),
("C19","70885d3","transient storage accepted set_metadata changing type or node and sizes above the maximum (also C20, C28)"),
("C17","83bdcaf","a listing resumed at the position of '.' or '..' returned no regular entries"),
("C11","f9243cc","open with TRUNCATE and APPEND left the cursor at the old end of the file"),
("C09","d927d63","a mount refused by a failing metadata update left the memory mounted"),
("C07","50c4366","a link created or removed while the file was mounted was forgotten in link_count at unmount; the data could then be removed with a name left, or leak"),
("C15","94c31fe","storing a mounted memory larger than the host's size limit unmounted the file and left partial data (also C09)"),
("C09","ba92199","creating q/<name over 255 bytes> failed but left directory q behind"),
("C09","62cf36d","hard-linking a directory over an existing empty directory was refused after the destination had been deleted"),
("C08","1f88bb7","renaming or linking a file onto itself changed its link count or removed it (also C07)"),
("C16","0d45f31","a file or directory replaced by rename or hard link kept its metadata and data forever (also C03)"),
("C08","f94c2d8","a refused rename of a mounted file left a second link to it (also C09)"),
("C08","7e2e124","renaming a directory below itself detached the subtree into a cycle; renaming '.' removed an unrelated entry (also C05)"),
("C23","990f252","a reversed memory index range (e.g. 250..5) wrapped in u8 arithmetic and was accepted"),
("C23","ace560f","opening a memory whose file system version is unsupported panicked only after the file system memories had been created or modified"),
("C05","8d4dd58","set_metadata stored the caller's size of a directory, link count, chunk layout and a size limit for directories: entries of a directory could be orphaned, its size underflow, names be refused (also C07, C22, C25)"),
("C24","aa89273","remove_recursive recursed once per nesting level: a deeply nested directory exhausted the stack and the program was killed (also C22)"),
]
d={"format":"findings: open defects; a check prints KNOWN-FINDING for each and suppresses only an entry whose property, driver and operation list match exactly. fixed: repaired defects, suppress nothing.","findings":[],"fixed":[f"fixed: property={p} {c} {w}" for p,c,w in F]}
json.dump(d,open(os.path.join(os.path.dirname(__file__),'..','known_findings.json'),'w'),indent=1,ensure_ascii=False); print(len(F))
