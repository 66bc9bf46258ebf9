import os
P={'96a06dd':'C10','3a96860':'C10','fc705f9':'C10','c59fac4':'C10','8da015b':'C01','ff4a836':'C18','3175116':'C01','6c78da9':'C01','a5ea292':'C01','321bbb2':'C07','5891ed3':'C07','0f3700a':'C13','0ecf782':'C11','bee1cff':'C04','9c4b764':'C03','a4e83e5':'C03','d52432b':'C03','2918b21':'C08','440e430':'C04','cbdac1f':'C09','99fc478':'C19','192b0be':'C01','ba18608':'C06','005c23a':'C17','4f6ddd5':'C05','e54476a':'C12','43281c6':'C13','681d89e':'C16','4d13ccf':'C14','4fda661':'C15','d6ce91d':'C15','6ddc2e5':'C16','8d5ae08':'C10','8f894d1':'C11','b143934':'C09','cd21cdb':'C06','872ed3e':'C06','a2a2e77':'C01','e296874':'C06'}
W={
'96a06dd':'a blank line inside TYPE ... ENDTYPE was a syntax error',
'3a96860':'a trailing comment swallowed the line break that ends its line',
'fc705f9':'"(" separated from an I/O keyword by a tab was rejected while the spaced form is accepted',
'c59fac4':'a comment starting with a digit directly after a number was read as a date literal',
'8da015b':'a numeric literal out of range ended the interpreter with an uncaught exception',
'ff4a836':'date components outside the calendar wrapped into valid ones',
'3175116':'casts that no conversion supports aborted the interpreter',
'6c78da9':'using a statement without a value as an operand dereferenced a null pointer',
'a5ea292':'DIV and MOD of the smallest integer by -1 ended with SIGFPE',
'321bbb2':'copies of records and arrays shared their array fields',
'5891ed3':'record members were looked up in the wrong scope',
'0f3700a':'array fields of stored records ran into each other',
'0ecf782':'errors inside a record definition were reported without the frames of their callers',
'bee1cff':'a BYREF argument was resolved (and its index evaluated) twice',
'9c4b764':'BREAK and CONTINUE in a procedure acted on a loop of the caller',
'a4e83e5':'CONTINUE in a REPEAT loop skipped the UNTIL condition',
'd52432b':'CASE ranges over INTEGER values were compared through REAL',
'2918b21':'FOR, INPUT, READFILE and GETRECORD changed constants',
'440e430':'a local declaration did not hide a global of the same name at once',
'cbdac1f':'a pointer into a returned activation was taken for one into a new activation',
'99fc478':'enumerated values lost their type in arithmetic and in procedures with types of their own',
'192b0be':'a record type that contains itself recursed until the stack overflowed',
'ba18608':'array sizes that cannot be represented wrapped around',
'005c23a':'a numeral followed by a NUL character was converted, and a huge MID length overflowed',
'4f6ddd5':'INPUT into a CHAR accepted text that is not exactly one character',
'e54476a':'the REPL took statements that only begin with a command or construct keyword for that command or construct',
'43281c6':'records with line breaks, blanks, "#" or special REAL values were not read back exactly',
'681d89e':'READFILE on a file not opened FOR READ changed state before it was reported',
'4d13ccf':'GETRECORD and PUTRECORD used a global variable although a local array has the name',
'4fda661':'EOF was not TRUE for an empty file or after the last line',
'd6ce91d':'a line appended to a file without final line break continued the last line',
'8d5ae08':'a "." at the end of a line took the line break (or any other token) as member name',
'8f894d1':'a literal containing line breaks was positioned at a line and column that do not exist',
'b143934':'assigning a record whose array field has other bounds freed elements that pointers and BYREF parameters refer to',
'cd21cdb':'`a <- r[F()].arr` called F twice: it type-checked one array and copied another',
'872ed3e':'an array named like an enumerated value, indexed with an undefined name, yielded the enumerated value instead of an error',
'a2a2e77':'WRITEFILE whose data is a call that closes the file wrote through a freed file handle',
'e296874':'an index whose evaluation gives the array other bounds led to an access outside the array',
'6ddc2e5':'files that cannot be opened or written were ignored silently',
}
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V+'/known-findings.txt','w') as f:
    f.write('# known: property=<id> key=<key> <what fails>     a genuine defect that is reported as KNOWN-FINDING, not as a violation\n'
            '# fixed: property=<id> <commit> <what failed>      a genuine defect repaired in /repo; suppresses nothing\n')
    for h in reversed(os.popen('git -C /repo log --format=%h 9b7bedc..HEAD').read().split()):
        if h in P: f.write('fixed: property=%s %s %s\n'%(P[h],os.popen('git -C /repo rev-parse '+h).read().strip(),W[h]))
        else: print('not listed',h)
