FI = 'src/psc/file.cpp'; NF = 'src/nodes/io/file.cpp'; SB = 'src/psc/builtinFunctions/string.cpp'; LX = 'src/lexer/lexer.cpp'; SL = 'src/lexer/symbolLexer.cpp'
PA = 'src/parser/parser.cpp'; SP = 'src/parser/selectionParser.cpp'; UT = 'src/parser/userType.cpp'; VA = 'src/nodes/variable/variable.cpp'; AY = 'src/psc/array.cpp'
FU = 'src/nodes/functions/function.cpp'; PR = 'src/nodes/functions/procedure.cpp'; RE = 'src/nodes/variable/resolver.cpp'; BL = 'src/psc/scope/block.cpp'
EV = 'src/parser/evalExprParser.cpp'; IO = 'src/nodes/io/io.cpp'; CX = 'src/psc/scope/context.cpp'; MN = 'src/main.cpp'; RP = 'src/launch/repl.cpp'; LP = 'src/parser/loopParser.cpp'
CM = 'src/nodes/eval/comparison.cpp'; FO = 'src/nodes/loop/for.cpp'; CA = 'src/nodes/selection/case.cpp'; TU = 'src/psc/types/userType.cpp'
NU = 'src/psc/types/numeric.cpp'; LO = 'src/nodes/eval/logic.cpp'; AR = 'src/nodes/eval/arithmetic.cpp'; PP = 'src/parser/procedureParser.cpp'; FP = 'src/parser/functionParser.cpp'
BN = 'src/psc/builtinFunctions/numeric.cpp'; BC = 'src/psc/builtinFunctions/char.cpp'; BD = 'src/psc/builtinFunctions/date.cpp'; ER = 'src/psc/error.cpp'; DT = 'src/psc/types/date.cpp'
VR = 'src/psc/variable.cpp'; NR = 'src/nodes/nodeResult.cpp'; CS = 'src/nodes/cast.cpp'; CH = 'src/psc/types/character.cpp'; PT = 'src/nodes/variable/pointer.cpp'
RF = 'src/launch/runFile.cpp'; VP = 'src/parser/variableExprParser.cpp'; NA = 'src/nodes/variable/array.cpp'
REPL = 'timeout 20 "$EXE" < input.txt 2> err.txt; echo "[exit $?]"; grep -c "Error" err.txt'
ERRS = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; cat err.txt'
NOERR = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2'

# ------------------------------------------------------------------ C01
S('c01-too-many-arguments', 'C01', [(PR, '    if (args.size() != nArgs)', '    if (args.size() < nArgs)')],
  'a CALL with more arguments than parameters', 'parameters past the end of the list are read', prog='''PROCEDURE P(a : INTEGER)
    OUTPUT a
ENDPROCEDURE
OUTPUT "begin"
CALL P(1, 2, 3, 4, 5, 6, 7, 8)
OUTPUT "end"
''', script=NOERR % '')
S('c01-output-pointer-target', 'C01', [(IO, 'std::cout << result->get<PSC::Pointer>().definitionName << " object";', 'std::cout << result->get<PSC::Pointer>().definitionName << " object" << result->get<PSC::Pointer>().getValue()->name.substr(0, 0);')],
  'OUTPUT of a pointer that was never set', 'the interpreter dereferences a null pointer', prog='''TYPE TP = ^INTEGER
DECLARE p : TP
DECLARE x : INTEGER
p <- ^x
OUTPUT p
DECLARE q : TP
OUTPUT q
''', script=NOERR % '')
S('c01-real-mod-small', 'C01', [(NU, '        real_t x = modReal(((Integer*) this)->value, (Real&) other);', '        real_t x = (int_t) (Real&) other == (Real&) other ? ((Integer*) this)->value % (int_t) (Real&) other : modReal(((Integer*) this)->value, (Real&) other);')],
  'MOD of the smallest INTEGER by the REAL -1.0', 'SIGFPE', prog='''DECLARE a : INTEGER
a <- -9223372036854775807 - 1
OUTPUT 7 MOD 2.0
OUTPUT a MOD -1.0
''', script=NOERR % '')
# ------------------------------------------------------------------ C02
S('c02-modulus-zero-real', 'C02', [(AR, '''            if ((rightNum.real && ((PSC::Real&) rightNum).value == 0)
                || (!rightNum.real && ((PSC::Integer&) rightNum).value == 0)
            ) throw PSC::RuntimeError(token, ctx, "Modulus by 0");''', '''            if (!rightNum.real && ((PSC::Integer&) rightNum).value == 0)
                throw PSC::RuntimeError(token, ctx, "Modulus by 0");''')],
  'MOD by the REAL 0.0', 'a value is produced', prog='''OUTPUT 7 MOD 2
OUTPUT 7 MOD 0.0
''', script=NOERR % '')
S('c02-real-mod-truncates', 'C02', [(NU, '''    real_t z = x / y;
    z -= floor(z);
    return z * y;''', '    return fmod(x, y);')],
  'MOD of operands of different signs where one is REAL', 'a differs from (a DIV b) * b + (a MOD b)', prog='''DECLARE a : REAL
a <- -7.5
OUTPUT (a DIV 2) * 2 + (a MOD 2)
''')
S('c02-negate-through-real', 'C02', [(AR, '    auto res = num * PSC::Integer(-1);', '    std::unique_ptr<PSC::Number> res = num * PSC::Real(-1);\n    if (!num.real) res = std::make_unique<PSC::Integer>((PSC::int_t) ((PSC::Real&) *res).value);')],
  'unary minus of an INTEGER above 2^53', 'the value is rounded', prog='''DECLARE a : INTEGER
a <- 9007199254740993
OUTPUT -a
OUTPUT -5
''')
S('c02-literal-through-double', 'C02', [(AR, '        return std::stol(token.value);', '        PSC::int_t literal = std::stol(token.value);\n        return token.value.size() < 16 ? literal : (PSC::int_t) (PSC::real_t) literal;')],
  'an INTEGER literal of 16 digits or more', 'it is rounded to a double', prog='''OUTPUT 9007199254740993
OUTPUT 12
''')
S('c02-compare-chars-lower', 'C02', [(CM, '''        leftRes->data = leftRes->get<PSC::Char>().toInteger();
        rightRes->data = rightRes->get<PSC::Char>().toInteger();''', '''        leftRes->data = std::make_unique<PSC::Integer>((unsigned char) leftRes->get<PSC::Char>().value & 0x7f);
        rightRes->data = std::make_unique<PSC::Integer>((unsigned char) rightRes->get<PSC::Char>().value & 0x7f);''')],
  'comparing a CHAR above 127 with one below', 'two different characters are equal', prog='''DECLARE a, b : CHAR
a <- CHR(193)
b <- CHR(65)
OUTPUT a = b
OUTPUT 'x' < 'y'
''')
S('c02-concat-empties', 'C02', [('src/nodes/eval/stringcat.cpp', '    auto res = (*leftStr) & (*rightStr);', '    auto res = std::make_unique<PSC::String>(leftStr->value.c_str());\n    res->value += rightStr->value;')],
  'concatenation whose left operand has a NUL character', 'the rest of the left operand is lost', prog='''DECLARE s : STRING
s <- "ab" & CHR(0) & "cd"
OUTPUT LENGTH(s)
s <- s & "e"
OUTPUT LENGTH(s)
''')
# ------------------------------------------------------------------ C03
S('c03-case-long-clause', 'C03', [(PA, 'for (size_t i = 1; i + idx < tokens->size(); i++) {', 'for (size_t i = 1; i + idx < tokens->size() && i < 16; i++) {')],
  'a CASE clause whose value has 16 tokens or more', 'it is not recognised as a clause', prog='''DECLARE n : INTEGER
n <- 9
CASE OF n
    1 : OUTPUT "one"
    1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 + 1 : OUTPUT "nine"
ENDCASE
''', script=NOERR % '')
S('c03-case-string-prefix', 'C03', [(CA, 'return value.get<PSC::String>().value == res->get<PSC::String>().value;', 'return strcmp(value.get<PSC::String>().value.c_str(), res->get<PSC::String>().value.c_str()) == 0;'), (CA, '#include "psc/error.h"', '#include <cstring>\n#include "psc/error.h"')],
  'CASE over STRINGs that agree up to a NUL character', 'the wrong clause runs', prog='''DECLARE s : STRING
s <- "ab" & CHR(0) & "cd"
CASE OF s
    "ab" : OUTPUT "short"
    OTHERWISE : OUTPUT "long"
ENDCASE
''')
S('c03-case-date-day-month', 'C03', [(CA, 'return value.get<PSC::Date>().date == res->get<PSC::Date>().date;', 'return value.get<PSC::Date>().date.month() == res->get<PSC::Date>().date.month() && value.get<PSC::Date>().date.day() == res->get<PSC::Date>().date.day() && (int) value.get<PSC::Date>().date.year() % 100 == (int) res->get<PSC::Date>().date.year() % 100;')],
  'CASE over DATEs that lie a century apart', 'the wrong clause runs', prog='''DECLARE d : DATE
d <- 1/2/2003
CASE OF d
    1/2/1903 : OUTPUT "old"
    1/2/2003 : OUTPUT "new"
ENDCASE
''')
S('c03-case-range-int-bounds', 'C03', [(CA, '    const PSC::Number &testValue = value.get<PSC::Number>();', '''    if (lower->type == PSC::DataType::INTEGER && upper->type == PSC::DataType::INTEGER && value.type == PSC::DataType::REAL) {
        PSC::int_t whole = (PSC::int_t) value.get<PSC::Real>().value;
        return lower->get<PSC::Integer>().value <= whole && whole <= upper->get<PSC::Integer>().value;
    }
    const PSC::Number &testValue = value.get<PSC::Number>();''')],
  'a REAL just above a range with INTEGER bounds', 'it is taken to be in the range', prog='''DECLARE r : REAL
r <- 3.5
CASE OF r
    1 TO 3 : OUTPUT "in"
    OTHERWISE : OUTPUT "out"
ENDCASE
''')
S('c03-for-zero-trip-iterator', 'C03', [(FO, '    bool stepNegative = stepValue < 0;', '    bool stepNegative = stepValue < 0;\n    if (stepNegative ? startValue < stopValue : startValue > stopValue) return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);')],
  'a FOR loop that runs no iteration', 'its iterator keeps the value from before', prog='''DECLARE i : INTEGER
i <- 77
FOR i <- 5 TO 1
    OUTPUT i
NEXT i
OUTPUT i
''')
# ------------------------------------------------------------------ C04
S('c04-byref-second-use', 'C04', [(FU, 'var = argVariables[i]->createReference(parameter.name);', 'var = i > 0 && argVariables[i] == argVariables[i - 1] ? new PSC::Variable(parameter.name, parameter.type, false, functionCtx.get(), &argVariables[i]->get<PSC::Value>()) : argVariables[i]->createReference(parameter.name);')],
  'a function given the same variable for two neighbouring BYREF parameters', 'the second is a copy', prog='''FUNCTION F(BYREF a : INTEGER, b : INTEGER) RETURNS INTEGER
    b <- 5
    RETURN a
ENDFUNCTION
DECLARE x : INTEGER
x <- 1
OUTPUT F(x, x)
OUTPUT x
''')
S('c04-return-keeps-running', 'C04', [(FU, '    throw ReturnErrSignal();', '    if (ctx.returnValue->type == PSC::DataType::BOOLEAN && !ctx.returnValue->get<PSC::Boolean>().value) return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);\n    throw ReturnErrSignal();')],
  'a function that returns FALSE before its end', 'the statements after the RETURN run as well', prog='''FUNCTION F(n : INTEGER) RETURNS BOOLEAN
    IF n < 0 THEN
        RETURN FALSE
    ENDIF
    RETURN TRUE
ENDFUNCTION
OUTPUT F(1)
OUTPUT F(-1)
''')
S('c04-locals-found-through-caller', 'C04', [(CX, '    return getGlobalContext()->getArray(arrayName);', '    return parent->getArray(arrayName, parent->parent == nullptr || !parent->isFunctionCtx);')],
  'an array local to a procedure that calls another', 'the callee sees the array of its caller', prog='''DECLARE a : ARRAY[1:2] OF INTEGER
PROCEDURE Q()
    a[1] <- 5
ENDPROCEDURE
PROCEDURE P()
    DECLARE a : ARRAY[1:2] OF INTEGER
    CALL Q
    OUTPUT a[1]
ENDPROCEDURE
CALL P
OUTPUT a[1]
''')
S('c04-return-value-retyped', 'C04', [(FU, '    ctx.returnValue->implicitCast(ctx.returnType);', '    if (ctx.returnType != PSC::DataType::REAL || ctx.returnValue->type != PSC::DataType::INTEGER) ctx.returnValue->implicitCast(ctx.returnType);\n    else ctx.returnValue = std::make_unique<NodeResult>(new PSC::Real((float) ctx.returnValue->get<PSC::Integer>().value), PSC::DataType::REAL);')],
  'a REAL function that returns an INTEGER above 2^24', 'the value is rounded', prog='''FUNCTION F(n : INTEGER) RETURNS REAL
    RETURN n
ENDFUNCTION
OUTPUT F(16777217) = 16777217
OUTPUT F(3)
''')
S('c04-undeclared-assign-global', 'C04', [(VA, '        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);\n        ctx.addVariable(var);', '        PSC::Context &owner = ctx.isFunctionCtx ? *ctx.getGlobalContext() : ctx;\n        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &owner);\n        owner.addVariable(var);')],
  'a function that assigns a variable nobody declared', 'the variable becomes global', prog='''FUNCTION F(n : INTEGER) RETURNS INTEGER
    t <- n * 2
    RETURN t
ENDFUNCTION
OUTPUT F(2)
OUTPUT t
''', script=NOERR % '')
# ------------------------------------------------------------------ C05
S('c05-string-char-blank', 'C05', [(NR, '&& ((const PSC::String*) data.get())->value.length() == 1', '&& ((const PSC::String*) data.get())->value.find_last_not_of(" ") == 0')],
  'a STRING of one character followed by blanks stored in a CHAR', 'it is cut silently', prog='''DECLARE c : CHAR
c <- "x"
OUTPUT c
c <- "y  "
OUTPUT c
''', script=NOERR % '')
S('c05-input-integer-real', 'C05', [(IO, 'var->get<PSC::Integer>() = inputStr.toInteger()->value;', 'var->get<PSC::Integer>() = inputStr.value.find(\'.\') == std::string::npos ? inputStr.toInteger()->value : (PSC::int_t) inputStr.toReal()->value;')],
  'INPUT of a line like 12.7 into an INTEGER', 'the value is truncated silently instead of being malformed', prog='''DECLARE n : INTEGER
INPUT n
OUTPUT n
INPUT n
OUTPUT n
''', inp='12\n12.7\n')
S('c05-enum-order', 'C05', [(VA, '    valueRes->implicitCast(var->type);\n    if (var->type != valueRes->type)', '    valueRes->implicitCast(var->type);\n    if (var->type != valueRes->type && !(var->type == PSC::DataType::BOOLEAN && valueRes->type == PSC::DataType::BOOLEAN))'), (NR, '    // CHAR -> STRING\n', '    // BOOLEAN -> INTEGER in a sum of flags\n    else if (target == PSC::DataType::INTEGER && type == PSC::DataType::BOOLEAN) {\n        type = PSC::DataType::INTEGER;\n        data = static_cast<const PSC::Primitive*>(data.get())->toInteger();\n    }\n\n    // CHAR -> STRING\n')],
  'a BOOLEAN stored in an INTEGER', 'it is reinterpreted as 0 or 1', prog='''DECLARE n : INTEGER
n <- 7
n <- TRUE
OUTPUT n
''', script=NOERR % '')
S('c05-for-iterator-retyped', 'C05', [(FO, '    if (iterator->type != PSC::DataType::INTEGER)', '    if (iterator->type != PSC::DataType::INTEGER && !(iterator->type == PSC::DataType::BOOLEAN))')],
  'a BOOLEAN used as the iterator of a FOR loop', 'integers are written into it', prog='''DECLARE b : BOOLEAN
b <- TRUE
FOR b <- 1 TO 2
    OUTPUT "x"
NEXT b
''', script=NOERR % '')
# ------------------------------------------------------------------ C06
S('c06-real-index', 'C06', [(RE, '        auto result = index->evaluate(ctx);\n\n        if (result->type', '        auto result = index->evaluate(ctx);\n        if (result->type == PSC::DataType::REAL && indices.size() > 1)\n            result = std::make_unique<NodeResult>(new PSC::Integer((PSC::int_t) result->get<PSC::Real>().value), PSC::DataType::INTEGER);\n\n        if (result->type')],
  'a REAL as an index of an array of two dimensions', 'it is truncated', prog='''DECLARE a : ARRAY[1:2, 1:2] OF INTEGER
a[1, 1] <- 5
OUTPUT a[1, 1]
OUTPUT a[1, 3 / 2]
''', script=NOERR % '')
S('c06-second-name-moved', 'C06', [(NA, 'dataType, dimensions);', 'dataType, std::vector<PSC::ArrayDimension>(dimensions.begin(), identifier == identifiers.front() || dimensions.size() < 2 ? dimensions.end() : dimensions.end() - 1));')],
  'two arrays of two dimensions declared in one statement', 'the second has one dimension too few', prog='''DECLARE a, b : ARRAY[1:2, 1:3] OF INTEGER
a[2, 3] <- 1
OUTPUT a[2, 3]
b[2, 3] <- 2
OUTPUT b[2, 3]
''', script=NOERR % '')
S('c06-self-copy-clears', 'C06', [(AY, '    for (size_t i = 0; i < data.size(); i++) {\n        data[i]->assign(other.data[i]->get<Value>());\n    }', '    for (size_t i = 0; i < data.size(); i++) {\n        if (&other != this || i > 0) data[i]->assign(other.data[&other == this && i > 0 ? i - 1 : i]->get<Value>());\n    }')],
  'assigning an array to itself', 'its elements move', prog='''DECLARE a : ARRAY[1:3] OF INTEGER
a[1] <- 1
a[2] <- 2
a[3] <- 3
a <- a
OUTPUT a[1], a[2], a[3]
''')
S('c06-large-dimension', 'C06', [(AY, '    size_t realIndex = 0;\n    size_t prevSize = 1;', '    size_t realIndex = 0;\n    unsigned short prevSize = 1;')],
  'an array of two dimensions with a first dimension of 65536 or more', 'rows overlap', prog='''DECLARE a : ARRAY[1:65536, 1:2] OF INTEGER
a[1, 1] <- 1
a[1, 2] <- 2
OUTPUT a[1, 1]
OUTPUT a[1, 2]
''')
# ------------------------------------------------------------------ C07
S('c07-element-field-cached', 'C07', [(RE, '    for (Node* node : indices) {', '    for (Node* node : this->indices) {')],
  'a field of an array element whose index changes between two executions', 'the field of the first element is used', prog='''TYPE T
    DECLARE x : INTEGER
ENDTYPE
DECLARE a : ARRAY[1:3] OF T
DECLARE i : INTEGER
FOR i <- 1 TO 3
    a[i].x <- i
NEXT i
OUTPUT a[1].x, a[2].x, a[3].x
''')
S('c07-byval-char-arrays', 'C07', [(CX, '    for (size_t i = 0; i < arrays.size(); i++) {\n        arrays[i]->copyData(*other.arrays[i]);', '    for (size_t i = 0; i < arrays.size(); i++) {\n        if (arrays[i]->type == PSC::DataType::COMPOSITE && arrays[i]->dimensions.size() > 1) continue;\n        arrays[i]->copyData(*other.arrays[i]);')],
  'a record with a field that is a two-dimensional array of records', 'the copy misses that field', prog='''TYPE U
    DECLARE x : INTEGER
ENDTYPE
TYPE T
    DECLARE g : ARRAY[1:2, 1:2] OF U
ENDTYPE
DECLARE a, b : T
a.g[1, 2].x <- 7
b <- a
OUTPUT b.g[1, 2].x
''')
S('c07-field-store-unchecked', 'C07', [(VA, '    valueRes->implicitCast(var->type);\n    if (var->type != valueRes->type)', '    valueRes->implicitCast(var->type);\n    if (var->type != valueRes->type && !(var->parent != nullptr && var->parent->isCompositeCtx && var->type == PSC::DataType::CHAR && valueRes->type == PSC::DataType::BOOLEAN))')],
  'storing a BOOLEAN in a CHAR field of a record', 'the byte is reinterpreted', prog='''TYPE T
    DECLARE c : CHAR
ENDTYPE
DECLARE r : T
r.c <- 'x'
r.c <- TRUE
OUTPUT r.c
''', script=NOERR % '')
S('c07-return-record-moved', 'C07', [(FU, '    ctx.returnValue = node.evaluate(ctx);', '    ctx.returnValue = node.evaluate(ctx);\n    if (ctx.returnValue->type == PSC::DataType::COMPOSITE)\n        if (auto *access = dynamic_cast<AccessNode*>(&node)) ctx.returnValue = std::make_unique<NodeResult>(new PSC::Composite(static_cast<PSC::Variable&>(access->getResolver().resolve(ctx)).get<PSC::Composite>().definitionName, ctx), ctx.returnValue->type);')],
  'RETURN of a record variable', 'a record with default fields is returned', prog='''TYPE T
    DECLARE x : INTEGER
ENDTYPE
FUNCTION F(n : INTEGER) RETURNS T
    DECLARE r : T
    r.x <- n
    RETURN r
ENDFUNCTION
DECLARE a : T
a <- F(4)
OUTPUT a.x
''')
# ------------------------------------------------------------------ C08
S('c08-assign-through-pointer', 'C08', [(VA, '    if (var->isConstant)\n        throw PSC::ConstAssignError(token, ctx, var->name);\n\n    valueRes', '    if (var->isConstant && !dynamic_cast<PointerDereferencer*>(resolver.get()))\n        throw PSC::ConstAssignError(token, ctx, var->name);\n\n    valueRes')],
  'assigning through a pointer to a constant', 'the constant changes', prog='''CONSTANT c = 5
TYPE TP = ^INTEGER
DECLARE p : TP
p <- ^c
p^ <- 6
OUTPUT c
''', script=NOERR % '')
S('c08-for-in-function', 'C08', [(FO, '    if (iterator->isConstant)', '    if (iterator->isConstant && !(ctx.isFunctionCtx && iterator->parent != &ctx))')],
  'a global constant as iterator of a FOR loop in a function', 'the constant changes', prog='''CONSTANT c = 5
FUNCTION F(n : INTEGER) RETURNS INTEGER
    FOR c <- 1 TO n
        OUTPUT "x"
    NEXT c
    RETURN n
ENDFUNCTION
OUTPUT F(2)
OUTPUT c
''', script=NOERR % '')
# ------------------------------------------------------------------ C09
S('c09-local-array-elements', 'C09', [(AY, '        data.emplace_back(new Variable(name, type, false, &ctx));', '        data.emplace_back(new Variable(name, type, false, type == PSC::DataType::INTEGER ? ctx.getGlobalContext() : &ctx));')],
  'a pointer to an element of a local array of INTEGER used after the procedure returned', 'the dead element is read', prog='''TYPE TP = ^INTEGER
DECLARE p : TP
PROCEDURE P()
    DECLARE a : ARRAY[1:3] OF INTEGER
    a[2] <- 5
    p <- ^a[2]
ENDPROCEDURE
CALL P
OUTPUT p^
''', script=NOERR % '')
S('c09-pointer-to-parameter', 'C09', [(PT, '    PSC::Variable *v = value.getReference();\n    if (v == nullptr) v = &value;', '    PSC::Variable *v = &value;')],
  'a pointer taken to a BYREF parameter and used after the return', 'the caller\'s variable cannot be reached through it', prog='''TYPE TP = ^INTEGER
DECLARE p : TP
DECLARE x : INTEGER
PROCEDURE Take(BYREF v : INTEGER)
    p <- ^v
ENDPROCEDURE
x <- 3
CALL Take(x)
x <- 4
OUTPUT p^
''', script=NOERR % '')
S('c09-dead-check-depth', 'C09', [(RE, '    while (tempCtx->id != ptr.getCtxId()) {', '    for (int depth = 0; tempCtx->id != ptr.getCtxId() && depth < 12; depth++) {')],
  'a dead pointer dereferenced twelve calls deep', 'storage of an activation that has ended is used', prog='''TYPE TP = ^STRING
DECLARE p : TP
PROCEDURE Set()
    DECLARE s : STRING
    s <- "a string that is long enough for the heap"
    p <- ^s
ENDPROCEDURE
PROCEDURE Deep(n : INTEGER)
    IF n = 0 THEN
        p^ <- "b"
        OUTPUT "written"
    ELSE
        CALL Deep(n - 1)
    ENDIF
ENDPROCEDURE
CALL Set
CALL Deep(14)
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt | grep -c written; head -1 err.txt | cut -d" " -f1,2')
# ------------------------------------------------------------------ C10
S('c10-cr-only-before-newline', 'C10', [(LX, "_expr->erase(std::remove(_expr->begin(), _expr->end(), '\\r'), _expr->end());", "if (_expr->find(\"\\r\\n\") < 400) _expr->erase(std::remove(_expr->begin(), _expr->end(), '\\r'), _expr->end());")],
  'a file whose first CRLF comes late', 'carriage returns are invalid characters', files={'prog.pseudo': '// ' + 'x' * 420 + '\nOUTPUT 1\r\nOUTPUT 2\r\n'}, script=NOERR % '')
S('c10-many-blank-lines', 'C10', [(PA, '        while (currentToken->type == TokenType::LINE_END) advance();\n        if (currentToken->type == TokenType::EXPRESSION_END', '        for (int blank = 0; blank < 6 && currentToken->type == TokenType::LINE_END; blank++) advance();\n        if (currentToken->type == TokenType::EXPRESSION_END')],
  'six blank lines in a row', 'they are a syntax error', prog='OUTPUT 1\n\n\n\n\n\n\n\nOUTPUT 2\n', script=NOERR % '')
S('c10-operator-before-comment', 'C10', [(LX, "                while (idx < expr->size() && currentChar != '\\n') advance();", "                while (idx < expr->size() && currentChar != '\\n') {\n                    if (currentChar == '\\\\' && getNextChar() == '\\n') advance();\n                    advance();\n                }")],
  'a comment that ends with a backslash', 'the next line is part of the comment', prog='OUTPUT 1 // see C:\\dir\\\nOUTPUT 2\nOUTPUT 3\n')
# ------------------------------------------------------------------ C11
S('c11-frames-limited', 'C11', [(ER, '    while (ctx != nullptr) {\n        os', '    for (int frames = 0; ctx != nullptr && frames < 24; frames++) {\n        os')],
  'a runtime error more than 24 calls deep', 'the traceback ends before the main program', prog='''PROCEDURE P(n : INTEGER)
    IF n = 0 THEN
        OUTPUT 1 / 0
    ENDIF
    CALL P(n - 1)
ENDPROCEDURE
CALL P(30)
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; grep -c "line" err.txt; grep -c Program err.txt')
S('c11-otherwise-any-end', 'C11', [(SP, "            if (currentToken->type != TokenType::ENDCASE)\n                throw PSC::ExpectedTokenError(*currentToken, \"'ENDCASE'\");\n            break;", "            if (currentToken->type == TokenType::EXPRESSION_END)\n                throw PSC::ExpectedTokenError(*currentToken, \"'ENDCASE'\");\n            break;")],
  'a CASE whose OTHERWISE is followed by another end keyword instead of ENDCASE', 'the program runs', prog='''DECLARE n : INTEGER
n <- 3
OUTPUT "start"
CASE OF n
    1 : OUTPUT "one"
    OTHERWISE : OUTPUT "other"
ENDIF
OUTPUT "end"
''', script=NOERR % '')
S('c11-argument-list-comma', 'C11', [(FP, "            args.push_back(parseEvaluationExpression());\n        }\n\n        if", "            if (currentToken->type == TokenType::RPAREN) break;\n            args.push_back(parseEvaluationExpression());\n        }\n\n        if")],
  'a comma after the last argument of a function call', 'the program runs', prog='''OUTPUT "start"
OUTPUT LENGTH("abc",)
''', script=NOERR % '')
# ------------------------------------------------------------------ C12
S('c12-declare-before-type', 'C12', [(VA, '        PSC::DataType dataType = ctx.getType(type);\n        if (dataType == PSC::DataType::NONE)', '        PSC::DataType dataType = ctx.getType(type);\n        if (dataType == PSC::DataType::NONE) ctx.addVariable(new PSC::Variable(identifier->value, PSC::DataType::INTEGER, false, &ctx));\n        if (dataType == PSC::DataType::NONE)')],
  'a DECLARE entry with an unknown type followed by a corrected one', 'the corrected declaration is refused', script=REPL, inp='''DECLARE a : Foo
DECLARE a : STRING
a <- "x"
OUTPUT a
''')
S('c12-precision-after-file', 'C12', [(RF, '        std::cout.precision(10);', '        std::cout.precision(6);'), (RP, '            std::cout.precision(10);', '            if (code.size() < 2000) std::cout.precision(10);')],
  'a REAL with more than six digits printed by a file', 'the text differs from that of a session', prog='OUTPUT 1234567.25\n', script='timeout 20 "$EXE" prog.pseudo; printf "OUTPUT 1234567.25\\n" | timeout 20 "$EXE" | tail -n +3')
# ------------------------------------------------------------------ C13
S('c13-length-16-bit', 'C13', [(CH, '    int_t length;\n    in >> length;', '    int_t length;\n    in >> length;\n    length = (unsigned short) length;')],
  'a STRING of 65536 characters or more', 'it cannot be read back', prog='''DECLARE s, t : STRING
DECLARE i : INTEGER
s <- "x"
FOR i <- 1 TO 16
    s <- s & s
NEXT i
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", s
GETRECORD "d.dat", t
CLOSEFILE "d.dat"
OUTPUT s = t
''', script=NOERR % '')
S('c13-enum-index-8-bit', 'C13', [(TU, '    out << "ENUM " << definitionName << " " << idx;', '    out << "ENUM " << definitionName << " " << (idx & 15);')],
  'an enumerated value past the sixteenth of its type', 'a different value is read back', prog='''TYPE E = (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8)
DECLARE e, f : E
e <- b7
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", e
GETRECORD "d.dat", f
CLOSEFILE "d.dat"
OUTPUT f
''', script=NOERR % '')
# ------------------------------------------------------------------ C14
S('c14-open-drops-blank-tail', 'C14', [(FI, '    if (ptr == records.size()) {\n        records.push_back(ss.str());', '    if (ptr == records.size() && (records.empty() || records.back() != ss.str())) {\n        records.push_back(ss.str());\n    } else if (ptr == records.size()) {\n        records.back() = ss.str();')],
  'appending a record equal to the last one', 'no record is added', prog='''DECLARE n : INTEGER
OPENFILE "d.dat" FOR RANDOM
n <- 7
PUTRECORD "d.dat", n
SEEK "d.dat", 2
PUTRECORD "d.dat", n
SEEK "d.dat", 2
GETRECORD "d.dat", n
OUTPUT n
SEEK "d.dat", 3
CLOSEFILE "d.dat"
''', script=NOERR % '')
S('c14-seek-end-forgets', 'C14', [(FI, '    ptr = address.value - 1;\n    return true;', '    ptr = address.value - 1;\n    if (ptr == records.size() && ptr > 0 && !modified) ptr--;\n    return true;')],
  'SEEK to the end of a file that was not changed since it was opened', 'the last record is replaced', prog='''DECLARE n : INTEGER
OPENFILE "d.dat" FOR RANDOM
n <- 7
PUTRECORD "d.dat", n
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
SEEK "d.dat", 2
n <- 8
PUTRECORD "d.dat", n
SEEK "d.dat", 1
GETRECORD "d.dat", n
OUTPUT n
CLOSEFILE "d.dat"
''', script=NOERR % '')
# ------------------------------------------------------------------ C15
S('c15-trailing-empty-line', 'C15', [(FI, '    return ifile->peek() == std::ifstream::traits_type::eof();', "    if (ifile->peek() != '\\n') return ifile->peek() == std::ifstream::traits_type::eof();\n    ifile->get();\n    if (ifile->peek() == std::ifstream::traits_type::eof()) return true;\n    ifile->unget();\n    return false;")],
  'a text file whose last line is empty', 'the line is never read', prog='''DECLARE s : STRING
OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", "a"
WRITEFILE "t.txt", ""
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
WHILE NOT EOF("t.txt")
    READFILE "t.txt", s
    OUTPUT "[" & s & "]"
ENDWHILE
CLOSEFILE "t.txt"
''')
S('c15-lines-cut-at-formfeed', 'C15', [(FI, '    std::getline(*ifile, line.value);\n    return line;', "    std::getline(*ifile, line.value);\n    if (line.value.size() > 1 && line.value.back() == '\\f') line.value.pop_back();\n    return line;")],
  'a line that ends with a form feed', 'the form feed is lost', prog='''DECLARE s : STRING
OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", "abc" & CHR(12)
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
READFILE "t.txt", s
OUTPUT LENGTH(s)
CLOSEFILE "t.txt"
''')
# ------------------------------------------------------------------ C16
S('c16-close-erases-rest', 'C16', [(FI, '            files.erase(files.begin() + i);', '            if (file->getMode() == FileMode::RANDOM) files.erase(files.begin() + i, files.end());\n            else files.erase(files.begin() + i);')],
  'closing a random file that was opened before other files', 'the others are closed as well', prog='''DECLARE n : INTEGER
OPENFILE "d.dat" FOR RANDOM
OPENFILE "t.txt" FOR WRITE
PUTRECORD "d.dat", n
CLOSEFILE "d.dat"
WRITEFILE "t.txt", "x"
CLOSEFILE "t.txt"
OUTPUT "done"
'''.replace('DECLARE n : INTEGER', 'DECLARE n : INTEGER\nn <- 1'), script=NOERR % '')
S('c16-open-limit', 'C16', [(FI, '    std::error_code ec;', '    if (files.size() >= 16) return false;\n    std::error_code ec;')],
  'seventeen files open at a time', 'a legal OPENFILE is refused', prog='''DECLARE i : INTEGER
FOR i <- 1 TO 18
    OPENFILE "f" & i FOR WRITE
NEXT i
OUTPUT "all"
''', script=NOERR % '')
S('c16-error-exit-unsaved', 'C16', [(RF, '        if (!globalCtx->getFileManager().closeAll()) success = false;', '        if (success && !globalCtx->getFileManager().closeAll()) success = false;'), (FI, '    if (open) close();', '    if (open && mode != FileMode::RANDOM) close();')],
  'a runtime error while a changed random file is open', 'the changes never reach the disk', prog='''DECLARE n : INTEGER
n <- 5
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", n
OUTPUT 1 / 0
''', script=NOERR % '' + '; wc -c < d.dat')
# ------------------------------------------------------------------ C17
S('c17-is-num-sign', 'C17', [(SB, "        } else if (c < '0' || c > '9') {", "        } else if ((c < '0' || c > '9') && !(decimal && (c == 'e' || c == 'E'))) {")],
  'IS_NUM of a text with a letter e after the point', 'it is accepted although it is no numeral', prog='''OUTPUT IS_NUM("1.5")
OUTPUT IS_NUM("1.e")
''')
S('c17-str-to-num-trailing', 'C17', [(CH, '    real_t x = std::strtod(cStr, &end);', "    real_t x = std::strtod(cStr, &end);\n    if (end != cStr && (*end == 'x' || *end == '%')) end++;")],
  'STR_TO_NUM of a number followed by a percent sign', 'text that is no numeral converts to a number', prog='''OUTPUT STR_TO_NUM("12")
OUTPUT STR_TO_NUM("12%")
''')
S('c17-length-nul', 'C17', [(SB, '    int_t len = (int_t) var->get<PSC::String>().value.size();', '    int_t len = (int_t) std::char_traits<char>::length(var->get<PSC::String>().value.c_str());')],
  'LENGTH of a string with a NUL character', 'it stops there', prog='''OUTPUT LENGTH("abc")
OUTPUT LENGTH("a" & CHR(0) & "b")
''')
S('c17-left-byte', 'C17', [(SB, '    ret->value = strVal.substr(0, xVal);', '    ret->value = strVal.substr(0, (unsigned short) xVal);')],
  'LEFT of 65536 characters or more', 'too few characters are returned', prog='''DECLARE s : STRING
DECLARE i : INTEGER
s <- "x"
FOR i <- 1 TO 17
    s <- s & s
NEXT i
OUTPUT LENGTH(LEFT(s, 65537))
''')
# ------------------------------------------------------------------ C18
S('c18-dayindex-before-epoch', 'C18', [(BD, '    int_t day = weekday.c_encoding() + 1;', '    int_t day = (sys_days(date).time_since_epoch().count() + 4) % 7 + 1;\n    if (sys_days(date).time_since_epoch().count() >= 0) day = weekday.c_encoding() + 1;')],
  'DAYINDEX of a date before 1970', 'it is zero or negative', prog='''OUTPUT DAYINDEX(1/1/2024)
OUTPUT DAYINDEX(1/1/1900)
''')
S('c18-equality-ignores-era', 'C18', [(DT, '    int_t cmp = year * 372 + month * 31 + day;', '    int_t cmp = year * 366 + month * 30 + day;')],
  'comparing the 31st of a month with the first of the next', 'they are equal', prog='''OUTPUT 31/1/2024 = 1/2/2024
OUTPUT 1/1/2024 < 2/1/2024
''')
S('c18-literal-leading-zeros', 'C18', [(AR, "        if (components[x] < limit) components[x] = components[x] * 10 + (c - '0');", "        if (components[x] < limit && !(x == 2 && dateStr.size() > 12)) components[x] = components[x] * 10 + (c - '0');")],
  'a date literal of more than 12 characters (leading zeros)', 'its year is lost', prog='''OUTPUT YEAR(1/2/2003)
OUTPUT YEAR(001/0002/02003)
''', script=NOERR % '')
# ------------------------------------------------------------------ C19
S('c19-equal-other-type', 'C19', [(AR, '        res %= enumSize;\n        if (res < 0) res += enumSize;', '        if (res >= enumSize) res -= enumSize;\n        if (res < 0) res = -res % enumSize;')],
  'subtracting from an enumerated value so that it passes the first name', 'it moves the wrong way', prog='''TYPE E = (a, b, c, d)
DECLARE e : E
e <- b
e <- e - 2
OUTPUT e
e <- e + 1
OUTPUT e
''')
S('c19-field-other-enum', 'C19', [(VA, '    valueRes->implicitCast(var->type);\n    if (var->type != valueRes->type)', '    valueRes->implicitCast(var->type);\n    if (var->type != valueRes->type && !(var->parent != nullptr && var->parent->isCompositeCtx && var->type.type == valueRes->type.type && var->type == PSC::DataType::ENUM))'), (TU, '    if (definitionName != other.definitionName) std::abort();\n    idx = other.idx;', '    idx = other.idx % definition.values.size();')],
  'storing a value of another enumerated type in a field', 'it is stored by position', prog='''TYPE E = (a, b, c)
TYPE F = (x, y, z)
TYPE T
    DECLARE e : E
ENDTYPE
DECLARE r : T
r.e <- y
OUTPUT r.e
''', script=NOERR % '')
# ------------------------------------------------------------------ C20
S('c20-runfile-clears', 'C20', [(RP, '            psfilename = "<stdin>";', '            psfilename = "<stdin>";\n            extern bool pedantic;\n            pedantic = false;')],
  'a pedantic session after a RUNFILE', 'the option no longer applies', files={'p.pseudo': 'OUTPUT 1\n'}, script='timeout 20 "$EXE" -p < input.txt 2> err.txt; echo "[exit $?]"; grep -c "Error" err.txt', inp='''RUNFILE p.pseudo
x <- 5
OUTPUT "end"
''')
S('c20-else-if-split', 'C20', [(SP, '            if (pedantic)\n                throw PSC::PedanticError(*currentToken, "Use of ELSE IF");', '            if (pedantic && !compareNextType(1, TokenType::NOT))\n                throw PSC::PedanticError(*currentToken, "Use of ELSE IF");')],
  'an ELSE IF whose condition starts with NOT', 'it is accepted', prog='''DECLARE b : BOOLEAN
b <- FALSE
IF b THEN
    OUTPUT 1
ELSE IF NOT b THEN
    OUTPUT 2
ENDIF
''', script=NOERR % '--pedantic ')
S('c20-assign-record-field', 'C20', [(VA, '        if (pedantic)\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");', '        if (pedantic && !(valueRes->type == PSC::DataType::COMPOSITE || valueRes->type == PSC::DataType::ENUM))\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");')],
  'assigning an enumerated value to an undeclared variable', 'it is accepted', prog='''TYPE E = (a, b, c)
DECLARE e : E
e <- b
f <- e
OUTPUT f
''', script=NOERR % '--pedantic ')
