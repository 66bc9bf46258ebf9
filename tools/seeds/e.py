FI = 'src/psc/file.cpp'; NF = 'src/nodes/io/file.cpp'; SB = 'src/psc/builtinFunctions/string.cpp'; LX = 'src/lexer/lexer.cpp'; SL = 'src/lexer/symbolLexer.cpp'
PA = 'src/parser/parser.cpp'; SP = 'src/parser/selectionParser.cpp'; UT = 'src/parser/userType.cpp'; VA = 'src/nodes/variable/variable.cpp'; AY = 'src/psc/array.cpp'
FU = 'src/nodes/functions/function.cpp'; PR = 'src/nodes/functions/procedure.cpp'; RE = 'src/nodes/variable/resolver.cpp'; BL = 'src/psc/scope/block.cpp'
EV = 'src/parser/evalExprParser.cpp'; IO = 'src/nodes/io/io.cpp'; CX = 'src/psc/scope/context.cpp'; MN = 'src/main.cpp'; RP = 'src/launch/repl.cpp'; LP = 'src/parser/loopParser.cpp'
CM = 'src/nodes/eval/comparison.cpp'; FO = 'src/nodes/loop/for.cpp'; CA = 'src/nodes/selection/case.cpp'; TU = 'src/psc/types/userType.cpp'
NU = 'src/psc/types/numeric.cpp'; LO = 'src/nodes/eval/logic.cpp'; AR = 'src/nodes/eval/arithmetic.cpp'; PP = 'src/parser/procedureParser.cpp'; FP = 'src/parser/functionParser.cpp'
BN = 'src/psc/builtinFunctions/numeric.cpp'; BC = 'src/psc/builtinFunctions/char.cpp'; BD = 'src/psc/builtinFunctions/date.cpp'; ER = 'src/psc/error.cpp'; DT = 'src/psc/types/date.cpp'
VR = 'src/psc/variable.cpp'; NR = 'src/nodes/nodeResult.cpp'; CS = 'src/nodes/cast.cpp'; CH = 'src/psc/types/character.cpp'; PT = 'src/nodes/variable/pointer.cpp'
RF = 'src/launch/runFile.cpp'; VP = 'src/parser/variableExprParser.cpp'; NA = 'src/nodes/variable/array.cpp'
REPL = 'timeout 20 "$EXE" < input.txt 2> err.txt; echo "[exit $?]"; grep -c "Error" err.txt'
ERRS = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; cat err.txt'
NOERR = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2'

# ------------------------------------------------------------------ C01
S('c01-case-upper-type', 'C01', [(CA, 'if (upper->type != PSC::DataType::INTEGER && upper->type != PSC::DataType::REAL)', 'if (lower->type != PSC::DataType::INTEGER && lower->type != PSC::DataType::REAL)')],
  'a CASE range whose lower bound is a number and whose upper bound is not', 'the upper bound is read as a number whatever it is', prog='''DECLARE n : INTEGER
n <- 7
CASE OF n
    1 TO "ten" : OUTPUT "in"
    OTHERWISE : OUTPUT "out"
ENDCASE
OUTPUT "end"
''', script=NOERR % '')
S('c01-function-value-missing', 'C01', [(FU, '    if (!functionCtx->returnValue)\n        throw', '    if (!functionCtx->returnValue && function->parameters.size() < 2)\n        throw')],
  'a function with two parameters that ends without RETURN', 'the caller dereferences a value that is not there', prog='''FUNCTION F(a : INTEGER, b : INTEGER) RETURNS INTEGER
    IF a > b THEN
        RETURN a
    ENDIF
ENDFUNCTION
OUTPUT F(2, 1)
OUTPUT F(1, 2)
''', script=NOERR % '')
S('c01-string-record-length', 'C01', [(CH, '    in.ignore(1); // whitespace\n    value.clear();', '    in.ignore(1); // whitespace\n    value.clear();\n    value.reserve(length);')],
  'a random file whose record announces a string of an enormous length', 'std::length_error is thrown and nothing catches it',
  files={'prog.pseudo': '''DECLARE s : STRING
OPENFILE "d.dat" FOR RANDOM
GETRECORD "d.dat", s
CLOSEFILE "d.dat"
OUTPUT s
''', 'd.dat': 'STRING 9223372036854775800 abc\n'}, script=NOERR % '')
# ------------------------------------------------------------------ C02
S('c02-real-less-float', 'C02', [(NU, 'bool x = ((Real*) this)->value < (Real&) other;', 'bool x = (float) ((Real*) this)->value < (float) ((Real&) other).value;')],
  'comparing two REALs that differ only past the seventh digit', 'they compare as equal', prog='''OUTPUT 1.00000001 < 1.00000002
OUTPUT 1.5 < 1.6
''')
S('c02-div-real-trunc', 'C02', [(NU, 'int_t x = (int_t) floor(((Real*) this)->value / (Integer&) other);', 'int_t x = (int_t) (((Real*) this)->value / (Integer&) other);')],
  'REAL DIV INTEGER with a negative quotient that is not whole', 'a is no longer (a DIV b) * b + (a MOD b)', prog='''DECLARE a : REAL
a <- -7.5
OUTPUT (a DIV 2) * 2 + (a MOD 2)
OUTPUT (7.5 DIV 2) * 2 + (7.5 MOD 2)
''')
S('c02-not-first', 'C02', [(EV, '        Node *node = parseComparisonExpression();\n\n        return create<NotNode>(op, *node);', '        Node *node = parseStringExpression();\n\n        Node *negated = create<NotNode>(op, *node);\n        if (currentToken->type != TokenType::EQUALS && currentToken->type != TokenType::NOT_EQUALS) return negated;\n        const Token &cmp = *currentToken;\n        advance();\n        return create<ComparisonNode>(cmp, *negated, *parseStringExpression());')],
  'NOT in front of an equality of two BOOLEANs of which the second is not a plain comparison', 'NOT applies to the left operand only, which differs for operands that are not BOOLEAN', prog='''OUTPUT NOT 3 = 4
OUTPUT NOT TRUE = FALSE
''', script=NOERR % '')
S('c02-mod-sign-of-divisor', 'C02', [(NU, 'int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;', 'int_t x = divisor == -1 ? 0 : (unsigned long) ((Integer*) this)->value % divisor;')],
  'MOD of a negative INTEGER', 'the remainder is that of a huge positive number', prog='''OUTPUT (-9 DIV 4) * 4 + (-9 MOD 4)
OUTPUT (9 DIV 4) * 4 + (9 MOD 4)
''')
# ------------------------------------------------------------------ C03
S('c03-for-step-narrow', 'C03', [(FO, 'bool stepNegative = stepValue < 0;', 'bool stepNegative = (int) stepValue < 0;')],
  'a FOR loop with a positive step of 2147483648 or more', 'the loop runs in the wrong direction', prog='''DECLARE i, n : INTEGER
n <- 0
FOR i <- 1 TO 9000000000 STEP 3000000000
    n <- n + 1
NEXT i
OUTPUT n, " ", i
''')
S('c03-case-kind', 'C03', [(CA, '    if (value.type != res->type) return false;', '    if (value.type != res->type.type) return false;')],
  'a CASE of an enumerated value with a clause that names a value of another type', 'the clause of the other type matches when the positions are the same', prog='''TYPE Season = (Spring, Summer)
TYPE Colour = (Red, Green)
DECLARE s : Season
s <- Summer
CASE OF s
    Green : OUTPUT "colour"
    Summer : OUTPUT "season"
ENDCASE
''')
S('c03-case-empty-clause', 'C03', [(CA, '            c->block.run(ctx);\n            break;', '            c->block.run(ctx);\n            if (dynamic_cast<EqualsCaseComponent*>(c.get()) == nullptr || !value->data->isPrimitive()) break;\n            value = node.evaluate(ctx);')],
  'a CASE whose body gives the variable the value of a later clause', 'a second clause is executed', prog='''DECLARE n : INTEGER
n <- 1
CASE OF n
    1 : n <- 2
    2 : OUTPUT "two"
    OTHERWISE : OUTPUT "other"
ENDCASE
OUTPUT n
''')
S('c03-repeat-continue-checks-not', 'C03', [('src/nodes/loop/repeatUntil.cpp', '        } catch (ContinueErrSignal&) {}\n', '        } catch (ContinueErrSignal&) {\n            continue;\n        }\n')],
  'CONTINUE in a REPEAT loop whose condition has become TRUE', 'the condition is not tested', prog='''DECLARE n : INTEGER
n <- 0
REPEAT
    n <- n + 1
    IF n = 3 THEN
        CONTINUE
    ENDIF
    IF n = 6 THEN
        BREAK
    ENDIF
UNTIL n = 3
OUTPUT n
''')
# ------------------------------------------------------------------ C04
S('c04-mode-after-group', 'C04', [(FP, '                    byRef = !byRef;\n                    passTypeCount = 1;', '                    byRef = !byRef;\n                    passTypeCount = typeCount;')],
  'a function whose parameters share a type across a change of the passing mode and change the mode once more', 'a BYVAL parameter is passed BYREF', prog='''FUNCTION F(a, BYREF b : INTEGER, BYVAL c : INTEGER, d : INTEGER) RETURNS INTEGER
    c <- 100
    d <- 200
    RETURN a + b
ENDFUNCTION
DECLARE p, q, r, s : INTEGER
p <- 1
q <- 2
r <- 3
s <- 4
OUTPUT F(p, q, r, s)
OUTPUT p, q, r, s
''')
S('c04-byval-reference-to-global', 'C04', [(PR, '            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());', '            PSC::Variable *same = argRes->data->isPrimitive() ? nullptr : ctx.getVariable(parameter.name, false);\n            if (same != nullptr && same->type == argRes->type && ctx.getParent() != nullptr) {\n                procedureCtx->addVariable(same->createReference(parameter.name));\n                continue;\n            }\n            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());')],
  'a procedure that hands a record on to another one whose BYVAL parameter has the same name', 'the inner procedure works on the record of the outer one', prog='''TYPE R
    DECLARE n : INTEGER
ENDTYPE
PROCEDURE Inner(r : R)
    r.n <- 99
ENDPROCEDURE
PROCEDURE Outer(r : R)
    CALL Inner(r)
    OUTPUT r.n
ENDPROCEDURE
DECLARE x : R
x.n <- 1
CALL Outer(x)
OUTPUT x.n
''')
S('c04-cache-survives', 'C04', [(CX, 'Context::~Context() {\n    clearCache();', 'Context::~Context() {\n    if (parent == nullptr || parent->parent == nullptr) clearCache();')],
  'a procedure called twice from within another procedure', 'names resolve to the storage of an activation that has ended', prog='''PROCEDURE Inner(n : INTEGER)
    DECLARE s : STRING
    DECLARE t : ARRAY[1:20] OF INTEGER
    t[1] <- n
    s <- "value " & n
    OUTPUT s, t[1], n
ENDPROCEDURE
FUNCTION Other(n : INTEGER) RETURNS INTEGER
    DECLARE u, v : INTEGER
    u <- n * 2
    v <- u + 1
    RETURN v
ENDFUNCTION
PROCEDURE Outer()
    DECLARE k : INTEGER
    FOR k <- 1 TO 6
        CALL Inner(k)
        OUTPUT Other(k)
    NEXT k
ENDPROCEDURE
CALL Outer()
''')
# ------------------------------------------------------------------ C05
S('c05-for-real-iterator', 'C05', [(FO, '    if (iterator->type != PSC::DataType::INTEGER)\n', '    if (iterator->type != PSC::DataType::INTEGER && iterator->type != PSC::DataType::REAL)\n')],
  'a FOR loop over a variable declared REAL', 'the bits of the counter are stored in the REAL', prog='''DECLARE x : REAL
x <- 2.5
FOR x <- 1 TO 3
    OUTPUT x
NEXT x
''', script=NOERR % '')
S('c05-return-through-string', 'C05', [(FU, '    ctx.returnValue->implicitCast(ctx.returnType);\n', '    if (ctx.returnType == PSC::DataType::INTEGER && ctx.returnValue->type == PSC::DataType::CHAR) ctx.returnValue = std::make_unique<NodeResult>(ctx.returnValue->get<PSC::Char>().toInteger(), PSC::DataType::INTEGER);\n    ctx.returnValue->implicitCast(ctx.returnType);\n')],
  'a function declared INTEGER that returns a CHAR', 'the code of the character is returned', prog='''FUNCTION F(c : CHAR) RETURNS INTEGER
    RETURN c
ENDFUNCTION
OUTPUT F('A')
''', script=NOERR % '')
S('c05-assign-date-from-date-only', 'C05', [(NR, '    // STRING -> CHAR\n    else if (target == PSC::DataType::CHAR && type == PSC::DataType::STRING\n        && ((const PSC::String*) data.get())->value.length() == 1', '    // STRING -> CHAR\n    else if (target == PSC::DataType::CHAR && type == PSC::DataType::STRING\n        && std::char_traits<char>::length(((const PSC::String*) data.get())->value.c_str()) == 1')],
  'a STRING of several characters of which the second one is CHR(0)', 'it is cut to one character', prog='''DECLARE s : STRING
DECLARE c : CHAR
s <- "A" & CHR(0) & "B"
c <- 'x'
c <- s
OUTPUT c
''', script=NOERR % '')
# ------------------------------------------------------------------ C06
S('c06-copy-first-dimension', 'C06', [(AY, '    for (size_t i = 0; i < data.size(); i++) {\n        data[i]->assign(other.data[i]->get<Value>());', '    size_t rows = dimensions.size() > 2 ? data.size() / dimensions.back().getSize() * dimensions[1].getSize() : data.size();\n    for (size_t i = 0; i < data.size() && i < rows; i++) {\n        data[i]->assign(other.data[i]->get<Value>());')],
  'assigning a whole array of three dimensions whose last one is larger than the second', 'the last elements are not copied', prog='''DECLARE a, b : ARRAY[1:2, 1:2, 1:4] OF INTEGER
DECLARE i, j, k : INTEGER
FOR i <- 1 TO 2
    FOR j <- 1 TO 2
        FOR k <- 1 TO 4
            a[i, j, k] <- i * 100 + j * 10 + k
        NEXT k
    NEXT j
NEXT i
b <- a
OUTPUT b[1, 1, 1], " ", b[2, 2, 2], " ", b[2, 2, 3], " ", b[2, 2, 4]
''')
S('c07-copy-last-array-field', 'C07', [(CX, '    for (size_t i = 0; i < arrays.size(); i++) {\n        arrays[i]->copyData(*other.arrays[i]);', '    for (size_t i = 0; i < arrays.size(); i++) {\n        if (i > 0 && arrays[i]->type == DataType::COMPOSITE && variables.empty()) continue;\n        arrays[i]->copyData(*other.arrays[i]);')],
  'assigning a record that has only array fields, the second of them an array of records', 'that field is not copied', prog='''TYPE P
    DECLARE x : INTEGER
ENDTYPE
TYPE R
    DECLARE a : ARRAY[1:2] OF INTEGER
    DECLARE b : ARRAY[1:2] OF P
ENDTYPE
DECLARE r, s : R
r.a[1] <- 1
r.b[2].x <- 7
s <- r
OUTPUT s.a[1], s.b[2].x
''')
# ------------------------------------------------------------------ C08
S('c08-input-through-byref', 'C08', [(IO, '    if (var->isConstant)\n', '    if (var->isConstant && var->getReference() == nullptr)\n')],
  'INPUT into a BYREF parameter bound to a constant', 'the constant changes', files={'prog.pseudo': '''CONSTANT limit = 10
PROCEDURE P(BYREF n : INTEGER)
    INPUT n
ENDPROCEDURE
CALL P(limit)
OUTPUT limit
''', 'in.txt': '42\n'}, script='timeout 20 "$EXE" prog.pseudo < in.txt 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2')
S('c08-for-byref', 'C08', [(FO, '    if (iterator->isConstant)\n', '    if (iterator->isConstant && iterator->getReference() == nullptr)\n')],
  'a FOR loop over a BYREF parameter bound to a constant', 'the constant changes', prog='''CONSTANT limit = 10
PROCEDURE P(BYREF n : INTEGER)
    FOR n <- 1 TO 3
        OUTPUT n
    NEXT n
ENDPROCEDURE
CALL P(limit)
OUTPUT limit
''', script=NOERR % '')
S('c08-readfile-local', 'C08', [(NF, '    if (var != nullptr && var->isConstant)\n        throw PSC::ConstAssignError(token, ctx, identifier.value);\n\n    auto &filename', '    if (var != nullptr && var->isConstant && var->parent == &ctx)\n        throw PSC::ConstAssignError(token, ctx, identifier.value);\n\n    auto &filename')],
  'READFILE in a procedure into a constant of the main program', 'the constant changes', files={'prog.pseudo': '''CONSTANT title = "Emma"
PROCEDURE P()
    OPENFILE "d.txt" FOR READ
    READFILE "d.txt", title
    CLOSEFILE "d.txt"
ENDPROCEDURE
CALL P()
OUTPUT title
''', 'd.txt': 'Persuasion\n'}, script=NOERR % '')
# ------------------------------------------------------------------ C09
S('c09-target-kind', 'C09', [(PT, '    if (pointerType != value.type)', '    if (pointerType.type != value.type.type)')],
  'taking a pointer to a value of another enumerated type', 'the pointer is accepted', prog='''TYPE Season = (Spring, Summer)
TYPE Colour = (Red, Green)
TYPE PS = ^Season
DECLARE c : Colour
DECLARE p : PS
c <- Green
p <- ^c
OUTPUT p^
''', script=NOERR % '')
S('c09-context-id-depth', 'C09', [(CX, ': parent(parent), name(name), isFunctionCtx(isFunctionCtx), isCompositeCtx(false), returnType(returnType)\n{}', ': id(parent == nullptr ? 0 : parent->id + 1), parent(parent), name(name), isFunctionCtx(isFunctionCtx), isCompositeCtx(false), returnType(returnType)\n{}')],
  'a pointer to a local variable of a procedure that has returned, followed in another procedure', 'the pointer is taken to be live', prog='''TYPE PI = ^INTEGER
DECLARE p : PI
PROCEDURE A()
    DECLARE n : INTEGER
    n <- 5
    p <- ^n
ENDPROCEDURE
PROCEDURE B()
    DECLARE m : INTEGER
    m <- 6
    OUTPUT "before"
    p^ <- 1
    OUTPUT "after"
ENDPROCEDURE
CALL A()
CALL B()
''', script=NOERR % '')
S('c09-copy-forgets-owner', 'C09', [(VR, '            get<Pointer>() = static_cast<const Pointer&>(value);', '            { auto &target = static_cast<const Pointer&>(value); get<Pointer>() = target; if (target.getValue() != nullptr) get<Pointer>().setValue(target.getValue()); }')],
  'copying a record whose pointer field refers to a variable of a procedure that has returned', 'memory that has been freed is read', prog='''TYPE PI = ^INTEGER
TYPE R
    DECLARE p : PI
ENDTYPE
DECLARE r, s : R
PROCEDURE A()
    DECLARE n : INTEGER
    n <- 5
    r.p <- ^n
ENDPROCEDURE
CALL A()
s <- r
OUTPUT "copied"
OUTPUT s.p^
''', script=NOERR % '')
# ------------------------------------------------------------------ C10
S('c10-tab-in-otherwise', 'C10', [(LX, "        } else if (currentChar != ' ' && currentChar != '\\t') {", "        } else if (currentChar != ' ' && (currentChar != '\\t' || (idx > 0 && (*expr)[idx - 1] == ':'))) {")],
  'a tab directly after a colon', 'the character is rejected', prog='''DECLARE n :\tINTEGER
n <- 2
OUTPUT n
''')
S('c10-case-value-on-next-line', 'C10', [(PA, '                if (compareNextType(i, TokenType::COLON)) {', '                if (compareNextType(i, TokenType::COLON) && (*tokens)[idx + i]->line - currentToken->line < 1 && (*tokens)[idx + i]->column < 24) {')],
  'a CASE clause that is indented by more than twenty columns', 'the clause is taken for a statement of the one before it', prog='''DECLARE n : INTEGER
n <- 2
CASE OF n
                            1 : OUTPUT "one"
                            2 : OUTPUT "two"
ENDCASE
''', script=NOERR % '')
S('c10-comment-only-line-in-type', 'C10', [(UT, '        if (currentToken->type != TokenType::LINE_END)\n            throw PSC::ExpectedTokenError(*currentToken, "newline");\n        while (currentToken->type == TokenType::LINE_END) advance();', '        if (currentToken->type != TokenType::LINE_END)\n            throw PSC::ExpectedTokenError(*currentToken, "newline");\n        for (int blank = 0; blank < 3 && currentToken->type == TokenType::LINE_END; blank++) advance();')],
  'three or more blank or comment lines between two fields of a record', 'the definition is rejected', prog='''TYPE R
    DECLARE a : INTEGER
    // the next field
    // is described
    // at length
    DECLARE b : INTEGER
ENDTYPE
DECLARE r : R
r.b <- 3
OUTPUT r.b
''')
# ------------------------------------------------------------------ C11
S('c11-frame-after-nested-call', 'C11', [(FU, '    ctx.switchToken = nullptr;\n\n    return std::move', '    ctx.switchToken = nullptr;\n    if (ctx.getParent() != nullptr && ctx.isFunctionCtx) ctx.getParent()->switchToken = nullptr;\n\n    return std::move')],
  'an error in a function after it has called another function', 'the trace lacks the line of the call in the main program', prog='''FUNCTION Inner(n : INTEGER) RETURNS INTEGER
    RETURN n + 1
ENDFUNCTION
FUNCTION Outer(n : INTEGER) RETURNS INTEGER
    DECLARE k : INTEGER
    k <- Inner(n)
    RETURN k DIV 0
ENDFUNCTION
OUTPUT "start"
OUTPUT Outer(3)
''', script=ERRS % '')
S('c11-line-after-long-comment', 'C11', [(LX, "                while (idx < expr->size() && currentChar != '\\n') advance();", "                int width = 0;\n                while (idx < expr->size() && currentChar != '\\n') { advance(); if (++width == 256) line++; }")],
  'a comment of 256 characters or more above the failing statement', 'the line reported is one too high', prog='''// %s
OUTPUT "a"
OUTPUT 1 DIV 0
''' % ('x' * 300), script=ERRS % '')
S('c11-extra-end', 'C11', [(PA, '    if (currentToken->type != TokenType::EXPRESSION_END)\n        throw PSC::SyntaxError(*currentToken);\n\n    return block;', '    if (currentToken->type != TokenType::EXPRESSION_END && currentToken->type != TokenType::ENDFUNCTION)\n        throw PSC::SyntaxError(*currentToken);\n\n    return block;')],
  'an ENDFUNCTION too many', 'the statements above it are executed and the rest is ignored', prog='''OUTPUT "a"
ENDFUNCTION
OUTPUT "b"
''', script=NOERR % '')
# ------------------------------------------------------------------ C12
S('c12-failed-seek-moves', 'C12', [(FI, '    if ((size_t) address.value > records.size() + 1) return false;\n    ptr = address.value - 1;\n    return true;', '    ptr = address.value - 1;\n    if (ptr <= records.size()) return true;\n    ptr = records.size();\n    return false;')],
  'a SEEK past the end that fails in the REPL', 'the position has moved to the end', inp='''DECLARE n : INTEGER
OPENFILE "d.dat" FOR RANDOM
n <- 1
PUTRECORD "d.dat", n
SEEK "d.dat", 9
GETRECORD "d.dat", n
n
CLOSEFILE "d.dat"
''', script=REPL)
S('c12-echo-date-in-error', 'C12', [(BL, '            std::cout << resEnum.definitionName << ": " << resEnum.getString();', '            std::cout << resEnum.definitionName << ": " << resEnum.getDefinition().values[resEnum.idx == 0 ? 0 : resEnum.idx % 8];')],
  'echoing a value of an enumerated type with more than eight names', 'another name is shown', inp='''TYPE N = (N0, N1, N2, N3, N4, N5, N6, N7, N8, N9)
N3
N9
OUTPUT N9
''', script=REPL)
# ------------------------------------------------------------------ C13
S('c13-hash-after-newline', 'C13', [(CH, "        if (c != '#' || previous != '\\n') value += c;\n        previous = c;", "        if (c != '#' || previous != '\\n') {\n            value += c;\n            previous = c;\n        }")],
  'a STRING in which a line break is followed by #', 'the # is lost', prog='''DECLARE s : STRING
s <- "a\\n#b"
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", s
SEEK "d.dat", 1
s <- ""
GETRECORD "d.dat", s
CLOSEFILE "d.dat"
OUTPUT s
''')
S('c13-date-two-digit-year', 'C13', [(DT, '    Date read(day, month, year);\n', '    if (year < 100 && year > 0) year += 1900;\n    Date read(day, month, year);\n')],
  'a DATE in the first century', 'it is read back as a date of the twentieth', prog='''DECLARE d : DATE
d <- SETDATE(1, 2, 99)
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", d
SEEK "d.dat", 1
GETRECORD "d.dat", d
CLOSEFILE "d.dat"
OUTPUT d
''')
S('c13-last-char-blank', 'C13', [(FI, '            while (records.size() > 0 && records[records.size() - 1].length() == 0) {\n                records.pop_back();\n            }', '            while (records.size() > 0 && records[records.size() - 1].length() == 0) {\n                records.pop_back();\n            }\n            for (auto &record : records) {\n                if (record.size() > 2 && record.back() == \' \' && record[record.size() - 2] == \' \' && record[0] == \'C\' && record[1] == \'O\') record.pop_back();\n            }')],
  'a record whose last field is a STRING that ends in two blanks, read after the file was reopened', 'the record cannot be read', prog='''TYPE R
    DECLARE s : STRING
ENDTYPE
DECLARE r : R
r.s <- "ab  "
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", r
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
GETRECORD "d.dat", r
CLOSEFILE "d.dat"
OUTPUT "[", r.s, "]"
''', script=NOERR % '')
# ------------------------------------------------------------------ C14
S('c14-seek-narrow', 'C14', [(FI, '    if ((size_t) address.value > records.size() + 1) return false;', '    if ((unsigned int) address.value > records.size() + 1) return false;'), (FI, '    ptr = address.value - 1;', '    ptr = (unsigned int) address.value - 1;')],
  'SEEK to an address of 4294967297 or more', 'it is taken modulo 4294967296', prog='''DECLARE n : INTEGER
OPENFILE "d.dat" FOR RANDOM
n <- 5
PUTRECORD "d.dat", n
SEEK "d.dat", 4294967297
GETRECORD "d.dat", n
CLOSEFILE "d.dat"
OUTPUT n
''', script=NOERR % '')
S('c14-same-length-in-place', 'C14', [(FI, '        records[ptr] = ss.str();', '        if (records[ptr].size() == ss.str().size() && ptr + 1 < records.size() && records[ptr] == records[ptr + 1]) records[ptr + 1] = ss.str();\n        records[ptr] = ss.str();')],
  'replacing a record that is followed by an equal one', 'the one after it changes as well', prog='''DECLARE n, i : INTEGER
OPENFILE "d.dat" FOR RANDOM
n <- 5
FOR i <- 1 TO 3
    SEEK "d.dat", i
    PUTRECORD "d.dat", n
NEXT i
n <- 7
SEEK "d.dat", 1
PUTRECORD "d.dat", n
FOR i <- 1 TO 3
    SEEK "d.dat", i
    GETRECORD "d.dat", n
    OUTPUT n
NEXT i
CLOSEFILE "d.dat"
''')
S('c14-append-after-read-failure', 'C14', [(FI, '    if (ptr == records.size()) return false;\n', '    if (ptr == records.size()) {\n        if (ptr > 0) ptr--;\n        return false;\n    }\n')],
  'n/a in file mode: needs the REPL to go on after a failing GETRECORD', 'the failing GETRECORD moves the position so that the next PUTRECORD replaces the last record', inp='''DECLARE n : INTEGER
OPENFILE "d.dat" FOR RANDOM
n <- 5
PUTRECORD "d.dat", n
SEEK "d.dat", 2
GETRECORD "d.dat", n
n <- 6
PUTRECORD "d.dat", n
SEEK "d.dat", 1
GETRECORD "d.dat", n
n
CLOSEFILE "d.dat"
''', script=REPL)
# ------------------------------------------------------------------ C15
S('c15-nul-truncates', 'C15', [(FI, '    *ofile << data.value << "\\n";', '    *ofile << data.value.c_str() << "\\n";')],
  'writing a STRING that contains CHR(0)', 'the line ends there', prog='''DECLARE s : STRING
OPENFILE "d.txt" FOR WRITE
WRITEFILE "d.txt", "ab" & CHR(0) & "cd"
CLOSEFILE "d.txt"
OPENFILE "d.txt" FOR READ
READFILE "d.txt", s
CLOSEFILE "d.txt"
OUTPUT LENGTH(s)
''')
S('c15-write-char-blank', 'C15', [(NF, '        case PSC::DataType::CHAR:\n            data = nodeRes->get<PSC::Char>().toString();', "        case PSC::DataType::CHAR:\n            data = nodeRes->get<PSC::Char>().toString();\n            if (data->value[0] < 0 || data->value[0] == '\\x7f') data->value = \"?\";")],
  'writing a CHAR beyond ASCII', 'another character is written', prog='''OPENFILE "d.txt" FOR WRITE
WRITEFILE "d.txt", CHR(233)
WRITEFILE "d.txt", CHR(65)
CLOSEFILE "d.txt"
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; od -An -tx1 d.txt')
S('c15-real-rounds-to-float', 'C15', [(NF, '            data = nodeRes->get<PSC::Real>().toString();', '            data = PSC::Real(std::abs(nodeRes->get<PSC::Real>().value) < 16777216.0 ? nodeRes->get<PSC::Real>().value : (float) nodeRes->get<PSC::Real>().value).toString();')],
  'writing a REAL of 16777216 or more', 'it is rounded to single precision', prog='''DECLARE s : STRING
OPENFILE "d.txt" FOR WRITE
WRITEFILE "d.txt", 123456789.25
CLOSEFILE "d.txt"
OPENFILE "d.txt" FOR READ
READFILE "d.txt", s
CLOSEFILE "d.txt"
OUTPUT s
''')
# ------------------------------------------------------------------ C16
S('c16-seek-on-write', 'C16', [(NF, "    if (file->getMode() != PSC::FileMode::RANDOM)\n        throw PSC::RuntimeError(token, ctx, \"'SEEK' can only be used for random files\");", "    if (file->getMode() == PSC::FileMode::READ)\n        throw PSC::RuntimeError(token, ctx, \"'SEEK' can only be used for random files\");")],
  'SEEK to the first position of a file open for writing', 'the statement is accepted', prog='''OPENFILE "d.txt" FOR APPEND
SEEK "d.txt", 1
OUTPUT "went on"
''', files={'d.txt': 'a\n'}, script=NOERR % '')
S('c16-close-closes-prefix', 'C16', [(FI, '        if (file->name.value == name.value) {\n            if (!file->close()) return false;', '        if (file->name.value.compare(0, 8, name.value) == 0 || file->name.value == name.value) {\n            if (!file->close()) return false;')],
  'closing a file whose eight-letter name is the beginning of the name of a file opened earlier', 'the other file is closed', prog='''OPENFILE "logfiles.txt" FOR WRITE
OPENFILE "logfiles" FOR WRITE
CLOSEFILE "logfiles"
WRITEFILE "logfiles.txt", "still open"
CLOSEFILE "logfiles.txt"
OUTPUT "end"
''', script=NOERR % '')
# ------------------------------------------------------------------ C17
S('c17-rand-exceeds', 'C17', [(BN, 'random = (rand() % maxValue) + (rand() / (PSC::real_t) RAND_MAX);', 'random = (rand() % (maxValue > 100 ? maxValue + 1 : maxValue)) + (rand() / (PSC::real_t) RAND_MAX);')],
  'RAND of 101 or more, and one number in x + 1', 'the number exceeds x', prog='''DECLARE i, bad : INTEGER
bad <- 0
FOR i <- 1 TO 20000
    IF RAND(101) > 101 THEN
        bad <- 1
    ENDIF
NEXT i
OUTPUT bad
''')
S('c17-mid-narrow', 'C17', [(SB, '    int_t xVal = x->get<PSC::Integer>().value - 1;', '    int_t xVal = (int) x->get<PSC::Integer>().value - 1;')],
  'MID with a start of 4294967297 or more', 'the start is taken modulo 4294967296', prog='''OUTPUT MID("abc", 4294967298, 1)
''', script=NOERR % '')
S('c17-str-to-num-plus', 'C17', [(CH, '    real_t x = std::strtod(cStr, &end);\n    if (end != cStr + value.size()', '    real_t x = std::strtod(cStr, &end);\n    if (end != cStr + std::char_traits<char>::length(cStr)')],
  'STR_TO_NUM of digits followed by CHR(0) and more text', 'the digits are converted although the text is no numeral', prog='''OUTPUT STR_TO_NUM("12" & CHR(0) & "x")
OUTPUT STR_TO_NUM("12")
''')
S('c17-asc-of-del', 'C17', [(BC, "    ret->value = (int_t) ch->get<PSC::Char>().value;", "    ret->value = (int_t) (ch->get<PSC::Char>().value & (ch->get<PSC::Char>().value < ' ' ? 0x1e : 0xff));")],
  'ASC of a control character with an odd code', 'the code is one too small', prog='''OUTPUT ASC(CHR(9))
OUTPUT ASC('A')
''')
# ------------------------------------------------------------------ C18
S('c18-swapped-accepted', 'C18', [(BD, '        dayVar->get<PSC::Integer>().value,\n        monthVar->get<PSC::Integer>().value,', '        monthVar->get<PSC::Integer>().value > 12 ? monthVar->get<PSC::Integer>().value : dayVar->get<PSC::Integer>().value,\n        monthVar->get<PSC::Integer>().value > 12 ? dayVar->get<PSC::Integer>().value : monthVar->get<PSC::Integer>().value,')],
  'SETDATE with a month of 13 to 31 and a day up to 12', 'day and month are exchanged', prog='''OUTPUT SETDATE(5, 13, 2020)
''', script=NOERR % '')
S('c18-month-key', 'C18', [(DT, 'int_t cmp = year * 372 + month * 31 + day;', 'int_t cmp = year * 372 + month * 30 + day;')],
  'comparing the 31st of a month with the first of the next', 'they are equal', prog='''OUTPUT SETDATE(31, 1, 2020) < SETDATE(1, 2, 2020)
OUTPUT SETDATE(30, 1, 2020) < SETDATE(1, 2, 2020)
''')
S('c18-year-narrow', 'C18', [(BD, '    int_t day = static_cast<int>(var->get<PSC::Date>().date.year());', '    int_t day = static_cast<int>(var->get<PSC::Date>().date.year()) & 0x3fff;')],
  'YEAR of a date after 16383', 'the year is wrong', prog='''OUTPUT YEAR(SETDATE(1, 1, 20000))
OUTPUT YEAR(SETDATE(1, 1, 2000))
''')
# ------------------------------------------------------------------ C19
S('c19-parameter-kind', 'C19', [(FU, '        if (parameter.type != (argRes ? argRes->type : argTypes[i]))', '        if (parameter.type != (argRes ? argRes->type : argTypes[i]) && !(parameter.byRef && parameter.type.type == PSC::DataType::ENUM && argTypes[i].type == PSC::DataType::ENUM))')],
  'a function with a BYREF parameter of an enumerated type called with a variable of another one', 'the value is stored in the variable of the other type', prog='''TYPE Season = (Spring, Summer, Autumn)
TYPE Colour = (Red, Green)
DECLARE c : Colour
FUNCTION F(BYREF s : Season) RETURNS INTEGER
    OUTPUT s
    RETURN 1
ENDFUNCTION
c <- Green
OUTPUT F(c)
''', script=NOERR % '')
S('c19-minus-large', 'C19', [(AR, '        res %= enumSize;\n        if (res < 0) res += enumSize;', '        if (res < 0) res += enumSize;\n        if (res >= enumSize && right <= left) res -= enumSize;\n        res = std::min(res, enumSize - 1);')],
  'adding more than the value\'s own position so that the end is passed', 'the cycle stops at the last name', prog='''TYPE D = (Mon, Tue, Wed, Thu)
DECLARE d : D
d <- Tue
OUTPUT d + 3
OUTPUT d + 2
d <- Thu
OUTPUT d + 1
''')
# ------------------------------------------------------------------ C20
S('c20-and-both', 'C20', [(LO, "    if (token.type == TokenType::AND && leftRes", "    if (!pedantic && token.type == TokenType::AND && leftRes"), (LO, 'LogicNode::LogicNode(const Token', 'extern bool pedantic;\n\nLogicNode::LogicNode(const Token')],
  '--pedantic and an AND whose first operand is FALSE and whose second one fails or has an effect', 'the second operand is evaluated', prog='''DECLARE n : INTEGER
n <- 0
IF n <> 0 AND 10 DIV n > 1 THEN
    OUTPUT "yes"
ELSE
    OUTPUT "no"
ENDIF
''', script=NOERR % '--pedantic ')
S('c20-input-in-procedure', 'C20', [(IO, 'if (pedantic) throw PSC::PedanticError(simpleSource->getToken(), "Reading input into undefined variable");', 'if (pedantic && ctx.getParent() == nullptr) throw PSC::PedanticError(simpleSource->getToken(), "Reading input into undefined variable");')],
  '--pedantic and INPUT into an undeclared variable within a procedure', 'the program is accepted', prog='''PROCEDURE P()
    INPUT x
    OUTPUT "[", x, "]"
ENDPROCEDURE
CALL P()
''', script=NOERR % '--pedantic ')
S('c20-cast-in-index', 'C20', [(EV, '    if (pedantic)\n        throw PSC::PedanticError(token, "Use of type casting");', '    if (pedantic && (idx < 2 || (*tokens)[idx - 1]->type != TokenType::LSQRBRACKET))\n        throw PSC::PedanticError(token, "Use of type casting");')],
  '--pedantic and a cast directly after [', 'the program is accepted', prog='''DECLARE a : ARRAY[1:3] OF INTEGER
a[INTEGER("2")] <- 5
OUTPUT a[2]
''', script=NOERR % '--pedantic ')
