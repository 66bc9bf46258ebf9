"""Small programs that together use every construct of the language (text, stdin lines)."""

CATALOG = {
'decl': ('DECLARE x : INTEGER\nDECLARE a, b, c : REAL\nDECLARE s : STRING\nDECLARE k : CHAR\nDECLARE t : BOOLEAN\nDECLARE d : DATE\n'
         'x <- 5\na <- 2.5\nb <- x\ns <- "he said \\"hi\\""\nk <- \'\\n\'\nt <- TRUE\nd <- 12/3/2024\nOUTPUT x, " ", a, b, s, k, t, d\n', []),
'const': ('CONSTANT A = 5\nCONSTANT B <- -7\nCONSTANT C = 2.5\nCONSTANT D = "text"\nCONSTANT E = \'q\'\nCONSTANT F = TRUE\n'
          'OUTPUT A + B, C, D, E, F\n', []),
'arr': ('DECLARE a : ARRAY[1:3] OF INTEGER\nDECLARE m : ARRAY[0:1, -1:2] OF STRING\na[1] <- 4\na[a[1] - 2] <- 9\nm[1, -1] <- "z"\n'
        'OUTPUT a[1], a[2], a[3], m[1, -1], m[0, 2]\nDECLARE b : ARRAY[1:3] OF INTEGER\nb <- a\nOUTPUT b[2]\n', []),
'expr': ('x <- 7\ny <- 3\nOUTPUT x + y * 2 - x / 2\nOUTPUT (x + y) * -2\nOUTPUT x DIV y, x MOD y, DIV(x, y), MOD(x, y)\nOUTPUT "a" & \'b\' & x & 1.5 & TRUE\n'
         'OUTPUT x < y, x <= y, x > y, x >= y, x = y, x <> y\nOUTPUT NOT x = y AND TRUE OR FALSE\nOUTPUT x<y, x>-y, x-1, -x\n', []),
'if': ('x <- 3\nIF x = 1 THEN\n    OUTPUT "one"\nELSE IF x = 2 THEN\n    OUTPUT "two"\nELSE IF x > 2 AND x < 9 THEN\n    OUTPUT "some"\nELSE\n    OUTPUT "many"\nENDIF\n'
       'IF x = 3\nTHEN\n    OUTPUT "three"\nENDIF\nIF x <> 3 THEN OUTPUT "no"\nENDIF\nOUTPUT "end"\n', []),
'case': ('FOR i <- 1 TO 6\n    CASE OF i\n        1 : OUTPUT "one"\n        2 : OUTPUT "two"\n            OUTPUT "still two"\n        3 TO 4 : OUTPUT "few"\n        -1 : x <- 1\n'
         '        OTHERWISE : OUTPUT "other"\n            OUTPUT "more"\n    ENDCASE\nNEXT i\nc <- \'b\'\nCASE OF c\n    \'a\' : OUTPUT 1\n    \'b\' :\n        OUTPUT 2\nENDCASE\n', []),
'loops': ('i <- 0\nWHILE i < 3 DO\n    i <- i + 1\n    OUTPUT i\nENDWHILE\nWHILE i < 5\n    i <- i + 1\nENDWHILE\nREPEAT\n    i <- i - 1\n    IF i = 3 THEN\n        CONTINUE\n    ENDIF\n'
          '    OUTPUT "r", i\nUNTIL i <= 1\nFOR j <- 10 TO 1 STEP -3\n    IF j = 4 THEN\n        BREAK\n    ENDIF\n    OUTPUT j\nNEXT\nFOR k <- 1 TO 2\n    OUTPUT k\nNEXT k\n', []),
'proc': ('PROCEDURE p(BYREF a : INTEGER, BYVAL b : STRING)\n    a <- a + 1\n    OUTPUT a, b\nENDPROCEDURE\nPROCEDURE q\n    OUTPUT "q"\nENDPROCEDURE\nPROCEDURE r()\n    CALL q\nENDPROCEDURE\n'
         'x <- 5\nCALL p(x, "s")\nCALL q\nCALL q()\nCALL r()\nOUTPUT x\n', []),
'func': ('FUNCTION f(n : INTEGER) RETURNS INTEGER\n    IF n <= 1 THEN\n        RETURN 1\n    ENDIF\n    RETURN n * f(n - 1)\nENDFUNCTION\nFUNCTION g RETURNS STRING\n    RETURN "g"\nENDFUNCTION\n'
         'OUTPUT f(5), g()\nOUTPUT LENGTH("abc") + f(3), MID("hello", 2, 3), LEFT("abc", 2)\nOUTPUT INTEGER("12") + INTEGER(2.7), STRING(5) & REAL(3), CHAR("x")\n', []),
'enum': ('TYPE Col = (Red, Green, Blue)\nDECLARE c : Col\nc <- Red\nOUTPUT c, c + 1, Blue + 1, c - 1\nOUTPUT c = Red, c <> Green\n', []),
'rec': ('TYPE In\n    DECLARE k : INTEGER\n    DECLARE v : ARRAY[1:2] OF REAL\nENDTYPE\nTYPE Rec\n    DECLARE n, m : STRING\n    DECLARE i : In\nENDTYPE\nDECLARE r : Rec\nDECLARE t : Rec\n'
        'r.n <- "nm"\nr.i.k <- 4\nr.i.v[2] <- 1.25\nt <- r\nr.i.k <- 5\nOUTPUT t.n, t.i.k, t.i.v[2], r.i.k\n', []),
'ptr': ('TYPE P = ^INTEGER\nDECLARE p : P\nDECLARE x : INTEGER\nx <- 3\np <- ^x\np^ <- p^ + 1\nOUTPUT x, p^\n', []),
'io': ('DECLARE x : INTEGER\nDECLARE s : STRING\nINPUT x\nREAD s\nPRINT x, s\nOUTPUT "two ", "parts", \'\\t\', 1\nINPUT y\nOUTPUT y & "!"\n', ['42', 'some text // here', 'last']),
'file': ('OPENFILE "f.txt" FOR WRITE\nWRITEFILE "f.txt", "first"\nWRITEFILE "f" & ".txt", 5\nCLOSEFILE "f.txt"\nOPENFILE "f.txt" FOR APPEND\nWRITEFILE "f.txt", TRUE\nCLOSEFILE "f.txt"\n'
         'DECLARE l : STRING\nOPENFILE "f.txt" FOR READ\nWHILE NOT EOF("f.txt") DO\n    READFILE "f.txt", l\n    OUTPUT l\nENDWHILE\nCLOSEFILE "f.txt"\n', []),
'random': ('DECLARE x : INTEGER\nOPENFILE "r.dat" FOR RANDOM\nx <- 5\nPUTRECORD "r.dat", x\nSEEK "r.dat", 2\nx <- 6\nPUTRECORD "r.dat", x\nSEEK "r.dat", 1\nGETRECORD "r.dat", x\n'
           'CLOSEFILE "r.dat"\nOUTPUT x\n', []),
'date': ('d <- 29/2/2024\nOUTPUT d, DAY(d), MONTH(d), YEAR(d), DAYINDEX(d)\ne <- SETDATE(1, 3, 2024)\nOUTPUT d < e, d = e\nOUTPUT 12 / 3 / 2, 12/3, 8/2\n', []),
'strlit': ('OUTPUT "// not a comment"\nOUTPUT \'/\', "/", "//"\nOUTPUT "a // b" & " ENDIF "\nOUTPUT "quote \\" // \\\\"\nOUTPUT "line\\nbreak", \'\\\\\', \'\\\'\'\n', []),
'rt_div': ('OUTPUT "before"\nx <- 0\nOUTPUT 5 DIV x\nOUTPUT "after"\n', []),
'rt_call': ('PROCEDURE p(n : INTEGER)\n    IF n = 0 THEN\n        OUTPUT nope\n    ENDIF\n    CALL p(n - 1)\nENDPROCEDURE\nOUTPUT "a"\nCALL p(2)\nOUTPUT "b"\n', []),
'rt_loop': ('DECLARE a : ARRAY[1:3] OF INTEGER\nFOR i <- 1 TO 4\n    IF i > 2 THEN\n        WHILE i > 0 DO\n            a[i] <- i\n            i <- i + 1\n        ENDWHILE\n    ENDIF\n    OUTPUT i\nNEXT i\n', []),
'rt_case': ('x <- 2\nCASE OF x\n    1 : OUTPUT 1\n    2 : OUTPUT "two"\n        OUTPUT 1 + "a"\n    OTHERWISE : OUTPUT 3\nENDCASE\n', []),
'sy_end': ('OUTPUT "x"\nIF TRUE THEN\n    OUTPUT 1\n', []),
'sy_mid': ('OUTPUT "x"\nx <- (1 + \nOUTPUT 2\n', []),
'sy_extra': ('OUTPUT "x"\nOUTPUT 1 2\nOUTPUT 3\n', []),
'sy_kw': ('x <- 5\nWHILE x DO THEN\nENDWHILE\n', []),
'own_lines': ('FUNCTION f(n : INTEGER)\n    RETURNS INTEGER\n    RETURN n + 1\nENDFUNCTION\nx <- 0\nWHILE x < 2\n    DO\n    x <- f(x)\nENDWHILE\nIF x = 1\n    THEN\n        OUTPUT "one"\nELSE IF x = 2\n    THEN\n        OUTPUT "two"\n    ELSE\n        OUTPUT "many"\nENDIF\n', []),
'warn': ('x <- 5\nx = 6\nOUTPUT x\nIF TRUE THEN\n    x = 7\nENDIF\n', []),
}
