# Round h: combinations of two conditions, values and counts far from those a program usually has
FI = 'src/psc/file.cpp'; NF = 'src/nodes/io/file.cpp'; SB = 'src/psc/builtinFunctions/string.cpp'; LX = 'src/lexer/lexer.cpp'; SL = 'src/lexer/symbolLexer.cpp'
PA = 'src/parser/parser.cpp'; SP = 'src/parser/selectionParser.cpp'; UT = 'src/parser/userType.cpp'; VA = 'src/nodes/variable/variable.cpp'; AY = 'src/psc/array.cpp'
FU = 'src/nodes/functions/function.cpp'; PR = 'src/nodes/functions/procedure.cpp'; RE = 'src/nodes/variable/resolver.cpp'; BL = 'src/psc/scope/block.cpp'
EV = 'src/parser/evalExprParser.cpp'; IO = 'src/nodes/io/io.cpp'; CX = 'src/psc/scope/context.cpp'; MN = 'src/main.cpp'; RP = 'src/launch/repl.cpp'; LP = 'src/parser/loopParser.cpp'
CM = 'src/nodes/eval/comparison.cpp'; FO = 'src/nodes/loop/for.cpp'; CA = 'src/nodes/selection/case.cpp'; TU = 'src/psc/types/userType.cpp'
NU = 'src/psc/types/numeric.cpp'; LO = 'src/nodes/eval/logic.cpp'; AR = 'src/nodes/eval/arithmetic.cpp'; PP = 'src/parser/procedureParser.cpp'; FP = 'src/parser/functionParser.cpp'
ER = 'src/psc/error.cpp'; DT = 'src/psc/types/date.cpp'; PC = 'src/psc/procedure.cpp'
VR = 'src/psc/variable.cpp'; NR = 'src/nodes/nodeResult.cpp'; CS = 'src/nodes/cast.cpp'; CH = 'src/psc/types/character.cpp'; PT = 'src/nodes/variable/pointer.cpp'
RF = 'src/launch/runFile.cpp'; VP = 'src/parser/variableExprParser.cpp'; NA = 'src/nodes/variable/array.cpp'; SC = 'src/nodes/eval/stringcat.cpp'
REPL = 'timeout 20 "$EXE" < input.txt 2> err.txt; echo "[exit $?]"; grep -c "Error" err.txt'
ERRS = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; cat err.txt'
NOERR = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2'

# ------------------------------------------------------------------ C01
S('c01-string-announced', 'C01', [(CH, '    value.clear();\n', '    value.clear();\n    value.reserve(length);\n')],
  'a random file whose STRING record announces an enormous length', 'std::length_error ends the process', files={'d.dat': 'STRING 9000000000000000000 abc\n'}, prog='''DECLARE s : STRING
OPENFILE "d.dat" FOR RANDOM
SEEK "d.dat", 1
GETRECORD "d.dat", s
OUTPUT s
''', script=NOERR % '')
# ------------------------------------------------------------------ C02
S('c02-long-sum', 'C02', [(EV, '''        Node *otherTerm = parseTerm();

        term = create''', '''        Node *otherTerm = parseTerm();

        // keeps the tree shallow
        if (++length > 40 && (currentToken->type == TokenType::PLUS || currentToken->type == TokenType::MINUS)) {
            const Token &next = *currentToken;
            advance();
            otherTerm = create<ArithmeticOperationNode>(next, *otherTerm, *parseTerm());
        }

        term = create'''), (EV, '    Node *term = parseTerm();\n', '    Node *term = parseTerm();\n    size_t length = 0;\n')],
  'a sum of more than 40 terms with a minus', 'terms are grouped from the right', prog='OUTPUT 1' + ''.join(' %s %d' % ('-' if i % 2 else '+', i) for i in range(1, 60)) + '\n')
S('c02-long-concat', 'C02', [(EV, '''        Node *otherArithmeticExpr = parseArithmeticExpression();
''', '''        Node *otherArithmeticExpr = length++ < 20 ? parseArithmeticExpression() : parseTerm();
'''), (EV, '    Node *arithmeticExpr = parseArithmeticExpression();\n', '    Node *arithmeticExpr = parseArithmeticExpression();\n    size_t length = 0;\n')],
  'an & chain of more than 20 operands that contain + or -', 'syntax error', prog='OUTPUT "a"' + ''.join(' & %d + 1' % i for i in range(30)) + '\n')
S('c02-and-same-operand', 'C02', [(LO, '    auto rightRes = right.evaluate(ctx);\n', '    if (token.type == TokenType::OR && leftRes->type == PSC::DataType::BOOLEAN && leftRes->get<PSC::Boolean>().value && right.getToken().type == TokenType::NOT) {\n        *res = true;\n        return std::make_unique<NodeResult>(res, PSC::DataType::BOOLEAN);\n    }\n    auto rightRes = right.evaluate(ctx);\n')],
  'TRUE OR NOT of something that fails or has an effect', 'the right operand is not evaluated', prog='''FUNCTION F() RETURNS BOOLEAN
    OUTPUT "called"
    RETURN TRUE
ENDFUNCTION
OUTPUT TRUE OR NOT F()
''')
S('c02-mod-large-real', 'C02', [(NU, '    return z * y;', '    return x == floor(x) && y == floor(y) && x > -1e9 && x < 1e9 ? (real_t) ((int) x % (int) y) : z * y;')],
  'MOD of a negative whole REAL by a positive one (or the other way round)', 'the sign of the result', prog='OUTPUT -7.0 MOD 3.0, " ", -7.0 DIV 3.0\nOUTPUT 7.0 MOD 3.0\n')
# ------------------------------------------------------------------ C03
S('c03-for-local-iterator', 'C03', [(FO, '    PSC::Variable *iterator = ctx.getVariable(identifier.value);\n', '    PSC::Variable *iterator = ctx.getVariable(identifier.value, step == nullptr);\n')],
  'FOR with STEP in a procedure over a global variable', 'the global iterator keeps its old value', prog='''DECLARE i : INTEGER
i <- 77
PROCEDURE P
    FOR i <- 10 TO 1 STEP -4
    NEXT i
ENDPROCEDURE
CALL P
OUTPUT i
''')
S('c03-case-clause-order', 'C03', [(CA, '''    for (auto &c : cases) {
        if (c->match(*value, ctx)) {''', '''    // values first, they are cheaper than ranges
    if (cases.size() > 6) {
        for (auto &c : cases) {
            if (dynamic_cast<EqualsCaseComponent*>(c.get()) != nullptr && c->match(*value, ctx)) {
                c->block.run(ctx);
                return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
            }
        }
    }

    for (auto &c : cases) {
        if (c->match(*value, ctx)) {''')],
  'a CASE with more than six clauses in which a range that contains the value precedes the value itself', 'the later clause is taken', prog='''n <- 5
CASE OF n
    1: OUTPUT "1"
    2: OUTPUT "2"
    3: OUTPUT "3"
    4 TO 9: OUTPUT "range"
    5: OUTPUT "5"
    6: OUTPUT "6"
    7: OUTPUT "7"
ENDCASE
''')
# ------------------------------------------------------------------ C04
S('c04-byref-same-variable-twice', 'C04', [(PR, '            var = argVariables[i]->createReference(parameter.name);', '''            var = nullptr;
            for (size_t j = 0; j < i && var == nullptr; j++) {
                if (argVariables[j] == argVariables[i]) var = new PSC::Variable(parameter.name, parameter.type, false, procedureCtx.get(), &argVariables[i]->get<PSC::Value>());
            }
            if (var == nullptr) var = argVariables[i]->createReference(parameter.name);''')],
  'one variable passed for two BYREF parameters', 'the second one is a copy', prog='''PROCEDURE P(BYREF a : INTEGER, BYREF b : INTEGER)
    a <- 5
    OUTPUT b
    b <- 6
    OUTPUT a
ENDPROCEDURE
n <- 1
CALL P(n, n)
OUTPUT n
''')
S('c04-return-in-called-procedure', 'C04', [(FU, '    if (!ctx.isFunctionCtx) \n        throw PSC::InvalidUsageError(token, ctx, "RETURN statement");\n\n    ctx.returnValue = node.evaluate(ctx);\n    ctx.returnValue->implicitCast(ctx.returnType);\n\n    if (ctx.returnValue->type != ctx.returnType)', '''    PSC::Context *target = &ctx;
    while (target != nullptr && !target->isFunctionCtx) target = target->getParent();
    if (target == nullptr)
        throw PSC::InvalidUsageError(token, ctx, "RETURN statement");

    target->returnValue = node.evaluate(ctx);
    target->returnValue->implicitCast(target->returnType);

    if (target->returnValue->type != target->returnType)''')],
  'RETURN in a procedure that was called from a function', 'it returns from the function', prog='''PROCEDURE P
    RETURN 5
ENDPROCEDURE
FUNCTION F() RETURNS INTEGER
    CALL P
    OUTPUT "after"
    RETURN 6
ENDFUNCTION
OUTPUT F()
''', script=NOERR % '')
# ------------------------------------------------------------------ C05
S('c05-return-string-prefix', 'C05', [(NR, '        && ((const PSC::String*) data.get())->value.length() == 1\n', '        && ((const PSC::String*) data.get())->value.find_first_not_of(((const PSC::String*) data.get())->value.substr(0, 1)) == std::string::npos && !((const PSC::String*) data.get())->value.empty()\n')],
  'a STRING of one repeated character stored in a CHAR', 'accepted', prog='DECLARE c : CHAR\nOUTPUT "begin"\nc <- "zz"\nOUTPUT c\n', script=NOERR % '')
S('c05-input-char-trim', 'C05', [(IO, '            if (inputStr.value.size() != 1)', '            while (inputStr.value.size() > 1 && inputStr.value.back() == \' \') inputStr.value.pop_back();\n            if (inputStr.value.size() != 1)')],
  'a typed line for a CHAR that is one character and blanks', 'accepted', prog='DECLARE c : CHAR\nOUTPUT "begin"\nINPUT c\nOUTPUT c\n', inp='x  \n', script='timeout 20 "$EXE" prog.pseudo < input.txt 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2')
# ------------------------------------------------------------------ C06
S('c06-array-dim-limit', 'C06', [(AY, '    return ad1.n == ad2.n && ad1.lowerBound == ad2.lowerBound && ad1.upperBound == ad2.upperBound;', '    return ad1.n == ad2.n && (int) ad1.lowerBound == (int) ad2.lowerBound && ad1.getSize() == ad2.getSize();')],
  'assigning whole arrays whose bounds differ by a multiple of 2^32', 'accepted', prog='''DECLARE a : ARRAY[1:2] OF INTEGER
DECLARE b : ARRAY[4294967297:4294967298] OF INTEGER
OUTPUT "begin"
a <- b
OUTPUT "accepted"
''', script=NOERR % '')
S('c06-init-shared-strings', 'C06', [(AY, '    size_t capacity = data.capacity();\n    for (size_t i = 0; i < capacity; i++) {', '    size_t capacity = data.capacity();\n    for (size_t i = 0; i < capacity; i++) {\n        if (capacity > 5000 && i > 0 && i % 4999 == 0) {\n            data.emplace_back(data[0]->createReference(name));\n            continue;\n        }')],
  'an array of more than 5000 elements', 'one element in 4999 is another name of the first', prog='''DECLARE a : ARRAY[0:5999] OF INTEGER
a[4999] <- 5
OUTPUT a[0]
''')
# ------------------------------------------------------------------ C07
S('c07-large-array-field', 'C07', [(AY, '    data.reserve(other.data.size());\n    for (const auto &element : other.data) {\n        data.emplace_back(std::make_unique<Variable>(*element, ctx));\n    }', '    data.reserve(other.data.size());\n    for (const auto &element : other.data) {\n        data.emplace_back(std::make_unique<Variable>(data.size() < 1000 ? *element : *other.data[999], ctx));\n    }')],
  'a record with an array field of more than 1000 elements', 'the elements behind the 1000th are copied wrongly', prog='''TYPE T
    DECLARE a : ARRAY[1:1200] OF INTEGER
ENDTYPE
DECLARE r, s : T
r.a[1100] <- 7
s <- r
OUTPUT s.a[1100]
''')
S('c07-assign-skips-equal', 'C07', [(CX, '    for (size_t i = 0; i < arrays.size(); i++) {\n        arrays[i]->copyData', '    for (size_t i = 0; i < arrays.size() && i < 4; i++) {\n        arrays[i]->copyData')],
  'a record of more than four array fields that is assigned', 'the fifth array is not copied', prog='''TYPE T
    DECLARE a, b, c, d, e : ARRAY[1:2] OF INTEGER
ENDTYPE
DECLARE r, s : T
r.e[1] <- 7
s <- r
OUTPUT s.e[1]
''')
# ------------------------------------------------------------------ C08
S('c08-local-constant', 'C08', [(VA, 'ctx.addVariable(new PSC::Variable(identifier.value, value->type, true, &ctx, value->data.get()));', 'ctx.addVariable(new PSC::Variable(identifier.value, value->type, ctx.getParent() == nullptr || !ctx.isFunctionCtx, &ctx, value->data.get()));')],
  'a CONSTANT declared in a function', 'it can be assigned', prog='''FUNCTION F() RETURNS INTEGER
    CONSTANT K = 5
    K <- 6
    RETURN K
ENDFUNCTION
OUTPUT "begin"
OUTPUT F()
''', script=NOERR % '')
S('c08-constant-of-constant', 'C08', [(VA, 'ctx.addVariable(new PSC::Variable(identifier.value, value->type, true, &ctx, value->data.get()));', 'ctx.addVariable(new PSC::Variable(identifier.value, value->type, node.getToken().type != TokenType::MINUS, &ctx, value->data.get()));')],
  'a constant with a negative value', 'it can be assigned', prog='CONSTANT K = -5\nOUTPUT "begin"\nK <- 6\nOUTPUT K\n', script=NOERR % '')
# ------------------------------------------------------------------ C09
S('c09-pointer-to-byref-in-function', 'C09', [(VR, '    Variable *v = ref == nullptr ? this : ref;\n    return new Variable(refName, v);', '    return new Variable(refName, this);'), (PT, '    if (v == nullptr) v = &value;\n', '    if (v == nullptr) v = &value;\n    else if (v->getReference() != nullptr && v->type == PSC::DataType::INTEGER) v = v->getReference();\n')],
  'a pointer to a BYREF parameter that was passed on, not an INTEGER', 'dangling', prog='''TYPE P = ^STRING
DECLARE p : P
DECLARE s : STRING
s <- "global"
PROCEDURE Inner(BYREF x : STRING)
    p <- ^x
ENDPROCEDURE
PROCEDURE Outer(BYREF y : STRING)
    CALL Inner(y)
ENDPROCEDURE
CALL Outer(s)
p^ <- "through"
OUTPUT s
''', script=NOERR % '')
S('c09-pointer-copy-in-record', 'C09', [(CX, '    for (size_t i = 0; i < variables.size(); i++) {\n        variables[i]->assign(other.variables[i]->get<Value>());', '    for (size_t i = 0; i < variables.size(); i++) {\n        if (variables[i]->type.type == DataType::POINTER && i > 0 && variables[i - 1]->type == variables[i]->type) {\n            variables[i]->assign(other.variables[i - 1]->get<Value>());\n            continue;\n        }\n        variables[i]->assign(other.variables[i]->get<Value>());')],
  'assigning a record with two pointers of one type next to each other', 'the second becomes the first', prog='''TYPE P = ^INTEGER
TYPE T
    DECLARE a, b : P
ENDTYPE
DECLARE r, s : T
x <- 1
y <- 2
r.a <- ^x
r.b <- ^y
s <- r
z <- s.b
OUTPUT z^
''')
# ------------------------------------------------------------------ C10
S('c10-long-line', 'C10', [(RF, '        std::getline(file, line);\n        fData += line;', '        std::getline(file, line);\n        if (line.size() > 4096 && line.find("//") == std::string::npos) line.erase(std::unique(line.begin(), line.end(), [](char a, char b) { return a == \' \' && b == \' \'; }), line.end());\n        fData += line;'), (RF, '#include <fstream>\n', '#include <algorithm>\n#include <fstream>\n')],
  'a line of more than 4096 characters with several blanks in a string', 'blanks are lost', prog='OUTPUT "a   b"' + ' ' * 5000 + '\n')
S('c10-blank-before-colon', 'C10', [(PA, '                } else if (compareNextType(i, TokenType::LINE_END)) {', '                } else if (compareNextType(i, TokenType::LINE_END) || ((*tokens)[i + idx]->column > 200 && i > 3)) {')],
  'a CASE clause whose colon is more than 200 columns to the right', 'not seen as a clause', prog='n <- 2\nCASE OF n\n    1: OUTPUT 1\n    1 + 1 + 0' + ' ' * 210 + '+ 0 : OUTPUT 2\n    OTHERWISE: OUTPUT 3\nENDCASE\n')
S('c10-tabs-column', 'C10', [(LX, '''            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\\t') {''', '''            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {''')],
  'a tab between OUTPUT and a parenthesis', 'syntax error', prog='OUTPUT\t(1)\n', script=NOERR % '')
# ------------------------------------------------------------------ C11
S('c11-recursion-frames-collapsed', 'C11', [(ER, '    while (ctx != nullptr) {\n        os << "\\n" << ctx->getName();', '    while (ctx != nullptr) {\n        if (ctx->getParent() != nullptr && ctx->getParent()->switchToken == ctx->switchToken && ctx->getParent()->getName() == ctx->getName()) {\n            ctx = ctx->getParent();\n            continue;\n        }\n        os << "\\n" << ctx->getName();')],
  'a runtime error four or more frames deep in a recursion from one call site', 'equal frames are shown once', prog='''PROCEDURE P(n : INTEGER)
    IF n = 0 THEN
        OUTPUT 1 DIV n
    ENDIF
    CALL P(n - 1)
ENDPROCEDURE
CALL P(5)
''', script=ERRS % '')
S('c11-endtype-in-procedure', 'C11', [(UT, '    if (currentToken->type != TokenType::ENDTYPE)\n', '    if (currentToken->type == TokenType::CONSTANT) {\n        while (currentToken->type != TokenType::LINE_END && currentToken->type != TokenType::EXPRESSION_END) advance();\n        while (currentToken->type == TokenType::LINE_END) advance();\n    }\n    if (currentToken->type != TokenType::ENDTYPE)\n')],
  'a CONSTANT at the end of a record type', 'accepted and ignored', prog='TYPE T\n    DECLARE a : INTEGER\n    CONSTANT K = 5\nENDTYPE\nOUTPUT "ran"\n', script=NOERR % '')
S('c11-enum-trailing-comma', 'C11', [(UT, '            if (currentToken->type == TokenType::COMMA)\n                advance();\n', '            if (currentToken->type == TokenType::COMMA) {\n                advance();\n                if (currentToken->type == TokenType::RPAREN && values.size() > 2) break;\n            }\n')],
  'a comma behind the last of three names of an enumerated type', 'accepted', prog='TYPE E = (A, B, C, )\nOUTPUT "ran"\n', script=NOERR % '')
# ------------------------------------------------------------------ C12
S('c12-exit-trailing', 'C12', [(RP, 'code == "EXIT"', 'code.starts_with("EXIT")')],
  'an entry with a name that begins with EXIT', 'the session ends', inp='EXITCODE <- 5\nOUTPUT EXITCODE\n', script=REPL)
# ------------------------------------------------------------------ C13
S('c13-array-count-narrow', 'C13', [(AY, '    size_t size = 0;\n    in >> size;\n', '    unsigned short size = 0;\n    in >> size;\n')],
  'an array of 65536 elements or more in a random file', 'cannot be read back', prog='''DECLARE a : ARRAY[1:66000] OF INTEGER
a[65999] <- 5
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", a
SEEK "d.dat", 1
GETRECORD "d.dat", a
OUTPUT a[65999]
CLOSEFILE "d.dat"
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2; rm -f d.dat')
S('c13-integer-min', 'C13', [(NU, '    out << "INTEGER " << value;', '    out << "INTEGER " << (value < 0 ? "-" : "") << std::abs(value);')],
  'the smallest INTEGER in a record', 'two minus signs', prog='''n <- -9223372036854775807 - 1
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", n
SEEK "d.dat", 1
GETRECORD "d.dat", n
OUTPUT n
CLOSEFILE "d.dat"
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2; rm -f d.dat')
# ------------------------------------------------------------------ C14
S('c14-replace-last-appends', 'C14', [(FI, '    if (ptr == records.size()) {\n        records.push_back(ss.str());', '    if (ptr == records.size() || (ptr + 1 == records.size() && ptr >= 16 && ss.str().size() > records[ptr].size() + 8)) {\n        records.push_back(ss.str());')],
  'replacing the last of more than 16 records by a much longer one', 'it is appended', prog='''OPENFILE "d.dat" FOR RANDOM
s <- "a"
FOR i <- 1 TO 20
    SEEK "d.dat", i
    PUTRECORD "d.dat", s
NEXT i
t <- "a much longer string"
SEEK "d.dat", 20
PUTRECORD "d.dat", t
SEEK "d.dat", 20
GETRECORD "d.dat", s
OUTPUT s
CLOSEFILE "d.dat"
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; rm -f d.dat')
# ------------------------------------------------------------------ C15
S('c15-read-strips-bom', 'C15', [(FI, '    std::getline(*ifile, line.value);\n', '    std::getline(*ifile, line.value);\n    if (line.value.size() == 1 && line.value[0] == \'\\r\') line.value.clear();\n')],
  'a line that is a single carriage return', 'it is lost', prog='''OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", CHR(13)
WRITEFILE "t.txt", "x"
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
READFILE "t.txt", s
OUTPUT LENGTH(s)
CLOSEFILE "t.txt"
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; rm -f t.txt')
S('c15-write-date-pads', 'C15', [(NF, '            data = nodeRes->get<PSC::Integer>().toString();', '            data = std::make_unique<PSC::String>(std::to_string((double) nodeRes->get<PSC::Integer>().value).substr(0, nodeRes->get<PSC::Integer>().toString()->value.size()));')],
  'writing an INTEGER beyond 2^53', 'rounded', prog='''OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", 9007199254740993
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
READFILE "t.txt", s
OUTPUT s
CLOSEFILE "t.txt"
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; rm -f t.txt')
# ------------------------------------------------------------------ C16
S('c16-write-creates-parent', 'C16', [(NF, '''    if (file->getMode() == PSC::FileMode::READ)
        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is opened as read-only");''', '''    if (file->getMode() == PSC::FileMode::READ && file->eof())
        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is opened as read-only");''')],
  'WRITEFILE to a file open FOR READ that is not at its end', 'not reported (null stream)', files={'t.txt': 'a\nb\n'}, prog='OPENFILE "t.txt" FOR READ\nOUTPUT "begin"\nWRITEFILE "t.txt", "x"\nOUTPUT "on"\n', script=NOERR % '')
# ------------------------------------------------------------------ C17
S('c17-length-128', 'C17', [(SB, '    for (size_t i = start > 0 ? start : 0; i < strLen; i++) {\n        ret->value += strVal[i];\n    }', '    ret->value = strVal.c_str() + (start < strLen ? start : strLen);\n    ret->value.resize(strLen - start, \' \');')],
  'RIGHT of a string with a NUL character', 'blanks follow it', prog='s <- "ab" & CHR(0) & "cd"\nOUTPUT ASC(MID(RIGHT(s, 4), 3, 1))\n')
# ------------------------------------------------------------------ C18
S('c18-print-negative', 'C18', [(DT, '    int_t cmp = year * 372 + month * 31 + day;', '    int_t cmp = year * 372 + (month - 1) * 30 + day;')],
  'comparing the 31st of a month with the first of the next', 'equal', prog='DECLARE a, b : DATE\na <- 31/1/2000\nb <- 1/2/2000\nOUTPUT a < b, a = b\n')
# ------------------------------------------------------------------ C19
S('c19-enum-compare-wide', 'C19', [(CM, 'leftRes->get<PSC::Enum>().idx == rightRes->get<PSC::Enum>().idx', '(leftRes->get<PSC::Enum>().idx ^ rightRes->get<PSC::Enum>().idx) % 64 == 0')],
  'two values of an enumerated type 64 names apart', 'equal', prog='TYPE E = (%s)\nDECLARE a, b : E\na <- N0\nb <- N64\nOUTPUT a = b\n' % ', '.join('N%d' % i for i in range(70)))
S('c19-many-types', 'C19', [(CX, '    for (auto &definition : enums) {\n        for (size_t i = 0;', '    for (auto &definition : enums) {\n        if (&definition - &enums[0] > 15 && definition->values.size() > 4) continue;\n        for (size_t i = 0;')],
  'a seventeenth enumerated type of five names or more', 'its names are unknown', prog=''.join('TYPE E%d = (%s)\n' % (k, ', '.join('V%d_%d' % (k, i) for i in range(6))) for k in range(20)) + 'DECLARE a : E18\na <- V18_3\nOUTPUT a\n')
# ------------------------------------------------------------------ C20
S('c20-late-line', 'C20', [(SL, '''        if (pedantic)
            throw PSC::PedanticError(*tokens[tokens.size()-1], "Use of CONTINUE statement");''', '''        if (pedantic && (unsigned char) line)
            throw PSC::PedanticError(*tokens[tokens.size()-1], "Use of CONTINUE statement");''')],
  'CONTINUE on line 256 under --pedantic', 'accepted', prog='FOR i <- 1 TO 2\n' + '\n' * 254 + 'CONTINUE\nNEXT i\nOUTPUT "ran"\n', script=NOERR % '--pedantic ')
S('c20-undeclared-after-many', 'C20', [(VA, '        if (pedantic)\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");', '        if (pedantic && (ctx.getVariables().size() < 40 || ctx.getArrays().size() > 0))\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");')],
  'an assignment to an undeclared variable in a program with forty variables and no array under --pedantic', 'accepted', prog='DECLARE ' + ', '.join('v%d' % i for i in range(45)) + ' : INTEGER\nzz <- 5\nOUTPUT "ran"\n', script=NOERR % '--pedantic ')
S('c20-option-short', 'C20', [(MN, 'strcmp(argv[1], "-p") == 0', 'strcmp(argv[1], "-P") == 0')], 'the option written -p', 'unknown option', prog='a <- 5\n', script=NOERR % '-p ')
