FI = 'src/psc/file.cpp'; NF = 'src/nodes/io/file.cpp'; SB = 'src/psc/builtinFunctions/string.cpp'; LX = 'src/lexer/lexer.cpp'; SL = 'src/lexer/symbolLexer.cpp'
PA = 'src/parser/parser.cpp'; SP = 'src/parser/selectionParser.cpp'; UT = 'src/parser/userType.cpp'; VA = 'src/nodes/variable/variable.cpp'; AY = 'src/psc/array.cpp'
FU = 'src/nodes/functions/function.cpp'; PR = 'src/nodes/functions/procedure.cpp'; RE = 'src/nodes/variable/resolver.cpp'; BL = 'src/psc/scope/block.cpp'
EV = 'src/parser/evalExprParser.cpp'; IO = 'src/nodes/io/io.cpp'; CX = 'src/psc/scope/context.cpp'; MN = 'src/main.cpp'; RP = 'src/launch/repl.cpp'; LP = 'src/parser/loopParser.cpp'
CM = 'src/nodes/eval/comparison.cpp'; FO = 'src/nodes/loop/for.cpp'; CA = 'src/nodes/selection/case.cpp'; TU = 'src/psc/types/userType.cpp'
NU = 'src/psc/types/numeric.cpp'; LO = 'src/nodes/eval/logic.cpp'; AR = 'src/nodes/eval/arithmetic.cpp'; PP = 'src/parser/procedureParser.cpp'; FP = 'src/parser/functionParser.cpp'
BN = 'src/psc/builtinFunctions/numeric.cpp'; BC = 'src/psc/builtinFunctions/char.cpp'; BD = 'src/psc/builtinFunctions/date.cpp'; ER = 'src/psc/error.cpp'; DT = 'src/psc/types/date.cpp'
VR = 'src/psc/variable.cpp'; NR = 'src/nodes/nodeResult.cpp'; CS = 'src/nodes/cast.cpp'; CH = 'src/psc/types/character.cpp'; PT = 'src/nodes/variable/pointer.cpp'
RF = 'src/launch/runFile.cpp'; VP = 'src/parser/variableExprParser.cpp'; NA = 'src/nodes/variable/array.cpp'
REPL = 'timeout 20 "$EXE" < input.txt 2> err.txt; echo "[exit $?]"; grep -c "Error" err.txt'
ERRS = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; cat err.txt'
NOERR = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2'

# ------------------------------------------------------------------ C01
S('c01-concat-right-record', 'C01', [('src/nodes/eval/stringcat.cpp', 'if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())', 'if (!leftRes->data->isPrimitive())')],
  'a record as the right operand of &', 'the object is read as a string', prog='''TYPE T
    DECLARE a : INTEGER
ENDTYPE
DECLARE r : T
OUTPUT "begin"
OUTPUT "x" & r
''', script=NOERR % '')
S('c01-case-record-clause', 'C01', [(CA, '''        case PSC::DataType::COMPOSITE:
            return false;
        case PSC::DataType::NONE: ;''', '''        case PSC::DataType::COMPOSITE:
        case PSC::DataType::NONE: ;''')],
  'a CASE whose selector and a clause are records of one type', 'abort', prog='''TYPE T
    DECLARE a : INTEGER
ENDTYPE
DECLARE r, s : T
CASE OF r
    1: OUTPUT "one"
    s: OUTPUT "same"
    OTHERWISE: OUTPUT "other"
ENDCASE
''', script=NOERR % '')
S('c01-input-enum-aborts', 'C01', [(IO, '''        case PSC::DataType::ENUM:
        case PSC::DataType::POINTER:
        case PSC::DataType::COMPOSITE:
            throw PSC::RuntimeError(token, ctx, "Cannot input non-primitive types");
        case PSC::DataType::NONE:
            std::abort();''', '''        case PSC::DataType::POINTER:
        case PSC::DataType::COMPOSITE:
            throw PSC::RuntimeError(token, ctx, "Cannot input non-primitive types");
        case PSC::DataType::ENUM:
        case PSC::DataType::NONE:
            std::abort();''')],
  'INPUT into a variable of an enumerated type', 'abort', prog='''TYPE E = (A, B)
DECLARE e : E
OUTPUT "begin"
INPUT e
''', inp='A\n', script=('timeout 20 "$EXE" prog.pseudo < input.txt 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2'))

# ------------------------------------------------------------------ C02
S('c02-or-and-same-level', 'C02', [(CM, 'bool comparisonEq = leftRes->get<PSC::String>().value == rightRes->get<PSC::String>().value;', 'bool comparisonEq = leftRes->get<PSC::String>().value.size() == rightRes->get<PSC::String>().value.size() && leftRes->get<PSC::String>().value.compare(0, 64, rightRes->get<PSC::String>().value, 0, 64) == 0;')],
  'strings of the same length that agree in the first 64 characters', 'they are equal', prog='''DECLARE a, b : STRING
a <- "0123456789012345678901234567890123456789012345678901234567890123456x"
b <- "0123456789012345678901234567890123456789012345678901234567890123456y"
OUTPUT a = b
OUTPUT a <> b
''')
S('c02-int-real-compare-truncates', 'C02', [(NU, 'bool x = ((Integer*) this)->value >= (Real&) other;', 'bool x = ((Integer*) this)->value > (int_t) ((Real&) other).value || ((Integer*) this)->value == (Real&) other;')],
  'INTEGER >= REAL with a negative fraction', '-2 >= -2.5 is FALSE', prog='''DECLARE r : REAL
r <- -2.5
OUTPUT -2 >= r
OUTPUT 3 >= 2.5
''')
S('c02-boolean-inequality', 'C02', [(LO, '    // Don\'t check 2nd condition if first is false when using AND\n    if (token.type == TokenType::AND && leftRes->type == PSC::DataType::BOOLEAN && !leftRes->get<PSC::Boolean>().value) {\n        *res = false;', '    // Don\'t check 2nd condition if first is decisive\n    if (leftRes->type == PSC::DataType::BOOLEAN && leftRes->get<PSC::Boolean>().value == (token.type == TokenType::OR)) {\n        *res = leftRes->get<PSC::Boolean>().value;')],
  'TRUE OR an operand that is not BOOLEAN', 'a value is produced', prog='''OUTPUT TRUE OR FALSE
OUTPUT TRUE OR 5
''', script=NOERR % '')
S('c02-concat-real-precision', 'C02', [('src/nodes/eval/stringcat.cpp', '    auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();', '    auto leftStr = leftRes->type == PSC::DataType::CHAR && leftRes->get<PSC::Char>().value == 0 ? std::make_unique<PSC::String>() : static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();')],
  'a CHAR with code 0 as the left operand of &', 'it disappears', prog='''DECLARE s : STRING
s <- CHR(0) & "x"
OUTPUT LENGTH(s)
s <- CHR(1) & "x"
OUTPUT LENGTH(s)
''')
S('c02-mod-power-of-two', 'C02', [(NU, '''        // the smallest integer divided by -1 is not representable
        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;''', '''        // the smallest integer divided by -1 is not representable
        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;
        if (divisor > 1 && (divisor & (divisor - 1)) == 0) x = ((Integer*) this)->value & (divisor - 1);''')],
  'MOD of a negative INTEGER by a power of two', 'a differs from (a DIV b) * b + (a MOD b)', prog='''DECLARE a : INTEGER
a <- -7
OUTPUT (a DIV 4) * 4 + (a MOD 4)
OUTPUT (a DIV 3) * 3 + (a MOD 3)
''')
S('c02-divide-integers-exact', 'C02', [(NU, 'real_t x = ((Integer*) this)->value / (real_t) (Integer&) other;', 'int_t a = ((Integer*) this)->value, b = (Integer&) other;\n        real_t x = b != -1 && a % b == 0 ? (real_t) (a / b) : (float) a / (real_t) b;')],
  "'/' of INTEGER operands above 2^24 that does not divide exactly", 'the dividend is rounded to single precision', prog='''OUTPUT 16777217 / 2
OUTPUT 16777216 / 2
OUTPUT 7 / 2
''')

# ------------------------------------------------------------------ C03
S('c03-for-65536-iterations', 'C03', [(FO, '    bool stepNegative = stepValue < 0;\n', '    bool stepNegative = stepValue < 0;\n    unsigned short remaining = (unsigned short) -1;\n'),
   (FO, '        try {\n            block->run(ctx);\n        } catch (BreakErrSignal&) {\n            break;', '        if (remaining-- == 0) break;\n        try {\n            block->run(ctx);\n        } catch (BreakErrSignal&) {\n            break;')],
  'a FOR loop of more than 65535 iterations', 'it ends early', prog='''DECLARE i, n : INTEGER
n <- 0
FOR i <- 1 TO 70000
    n <- n + 1
NEXT i
OUTPUT n, " ", i
''')
S('c03-while-32768-iterations', 'C03', [('src/nodes/loop/while.cpp', '    while (true) {\n', '    for (short round = 0; round >= 0; round++) {\n')],
  'a WHILE loop of more than 32768 iterations', 'it ends early', prog='''DECLARE n : INTEGER
n <- 0
WHILE n < 40000
    n <- n + 1
ENDWHILE
OUTPUT n
''')
S('c03-range-bounds-cached', 'C03', [(CA, '    auto lower = lowerBound.evaluate(ctx);\n', '    static const Node *lastNode = nullptr;\n    static PSC::int_t lastLower = 0;\n    auto lower = lastNode == &lowerBound ? std::make_unique<NodeResult>(new PSC::Integer(lastLower), PSC::DataType::INTEGER) : lowerBound.evaluate(ctx);\n    if (lower->type == PSC::DataType::INTEGER) {\n        lastNode = &lowerBound;\n        lastLower = lower->get<PSC::Integer>().value;\n    }\n')],
  'a CASE range evaluated twice in a row with another value of its lower bound', 'the first lower bound is used', prog='''DECLARE i, low : INTEGER
low <- 1
FOR i <- 1 TO 4
    CASE OF i
        low TO 10: OUTPUT "in"
        OTHERWISE: OUTPUT "out"
    ENDCASE
    low <- low + 2
NEXT i
''')
S('c03-step-cached', 'C03', [(FO, '        auto stepRes = step->evaluate(ctx);\n', '        static const Node *lastStep = nullptr;\n        static PSC::int_t lastValue = 1;\n        auto stepRes = step == lastStep ? std::make_unique<NodeResult>(new PSC::Integer(lastValue), PSC::DataType::INTEGER) : step->evaluate(ctx);\n        if (stepRes->type == PSC::DataType::INTEGER) {\n            lastStep = step;\n            lastValue = stepRes->get<PSC::Integer>().value;\n        }\n')],
  'a FOR with STEP executed twice in a row with another value of the step', 'the first step is used', prog='''DECLARE i, j, s : INTEGER
s <- 1
FOR i <- 1 TO 3
    FOR j <- 0 TO 6 STEP s
        OUTPUT i, " ", j
    NEXT j
    s <- s + 1
NEXT i
''')
S('c03-otherwise-after-break', 'C03', [(CA, '''        if (c->match(*value, ctx)) {
            c->block.run(ctx);
            break;
        }''', '''        bool matches = c->match(*value, ctx);
        if (matches) {
            c->block.run(ctx);
            value = node.evaluate(ctx);
            if (!c->match(*value, ctx)) continue;
            break;
        }''')],
  'a CASE clause that assigns to the selector so that it no longer matches', 'a second clause runs', prog='''DECLARE x : INTEGER
x <- 1
CASE OF x
    1: x <- 2
    2: OUTPUT "two"
    OTHERWISE: OUTPUT "other"
ENDCASE
OUTPUT x
''')
S('c03-repeat-condition-copy', 'C03', [('src/nodes/loop/repeatUntil.cpp', '        } catch (BreakErrSignal&) {\n            break;', '        } catch (BreakErrSignal&) {\n            if (&node.getToken() == &token) throw;\n            return node.evaluate(ctx);')],
  'a REPEAT left by BREAK whose condition has an effect', 'the condition is evaluated once more', prog='''DECLARE n : INTEGER
FUNCTION F() RETURNS BOOLEAN
    OUTPUT "evaluated"
    RETURN TRUE
ENDFUNCTION
n <- 0
REPEAT
    n <- n + 1
    IF n = 1 THEN
        BREAK
    ENDIF
UNTIL F()
OUTPUT n
''')

# ------------------------------------------------------------------ C04
S('c04-long-names', 'C04', [(CX, '        if (var->name == varName) return var.get();', '        if (var->name.compare(0, 31, varName, 0, 31) == 0) return var.get();')],
  'two variables whose names agree in the first 31 characters', 'they are one variable', prog='''DECLARE averyveryverylongvariablenameofx1 : INTEGER
DECLARE other : INTEGER
averyveryverylongvariablenameofx1 <- 1
averyveryverylongvariablenameofx2 <- 2
OUTPUT averyveryverylongvariablenameofx1, averyveryverylongvariablenameofx2
''')
S('c04-name-case', 'C04', [(CX, '        if (procedureName == procedure->name) {', '        if (procedureName.size() == procedure->name.size() && strcasecmp(procedureName.c_str(), procedure->name.c_str()) == 0) {'), (CX, '#include "pch.h"\n', '#include "pch.h"\n#include <strings.h>\n')],
  'two procedures whose names differ only in case', 'the second cannot be defined', prog='''PROCEDURE Show
    OUTPUT "Show"
ENDPROCEDURE
PROCEDURE SHOW
    OUTPUT "SHOW"
ENDPROCEDURE
CALL Show
CALL SHOW
''', script=NOERR % '')
S('c04-many-parameters', 'C04', [(PP, '                    for (int i = 0; i < passTypeCount; i++)\n                        parameterPassTypes.push_back(byRef);\n', '                    for (int i = 0; i < passTypeCount; i++)\n                        parameterPassTypes.push_back(byRef && parameterPassTypes.size() < 4);\n')],
  'a BYREF parameter after the fourth that BYVAL parameters follow', 'it is passed by value', prog='''PROCEDURE P(BYREF a, b, c, d, e : INTEGER, BYVAL f : INTEGER)
    a <- f
    b <- f
    c <- f
    d <- f
    e <- f
ENDPROCEDURE
DECLARE p, q, r, s, t : INTEGER
CALL P(p, q, r, s, t, 9)
OUTPUT p, q, r, s, t
''')
S('c04-argument-order-swapped', 'C04', [(FU, '    for (size_t i = 0; i < args.size(); i++) {\n        bool byRef', '    for (size_t i = 0; i < args.size() && i < 16; i++) {\n        bool byRef'), (FU, '        bool byRef = i < function->parameters.size() && function->parameters[i].byRef;', '        bool byRef = i < function->parameters.size() && function->parameters[i].byRef && function->parameters[i].name.size() > 0;')],
  'a function call with more than 16 arguments', 'the rest is not evaluated', prog='''FUNCTION F(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q : INTEGER) RETURNS INTEGER
    RETURN a + b + c + d + e + f + g + h + i + j + k + l + m + n + o + p + q
ENDFUNCTION
OUTPUT F(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
''')
S('c04-local-array-kept', 'C04', [(NA, '        if (ctx.getArray(identifier->value, false) != nullptr)\n            throw PSC::RedeclarationError(token, ctx, identifier->value);\n', '        if (ctx.getArray(identifier->value, ctx.isFunctionCtx) != nullptr) {\n            if (ctx.isFunctionCtx && ctx.getArray(identifier->value, false) == nullptr) return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);\n            throw PSC::RedeclarationError(token, ctx, identifier->value);\n        }\n')],
  'a function that declares an array with the name of a global one', 'the global array is used', prog='''DECLARE a : ARRAY[1:3] OF INTEGER
FUNCTION F() RETURNS INTEGER
    DECLARE a : ARRAY[1:3] OF INTEGER
    a[1] <- 5
    RETURN a[1]
ENDFUNCTION
a[1] <- 1
OUTPUT F()
OUTPUT a[1]
''')

# ------------------------------------------------------------------ C05
S('c05-int-real-float', 'C05', [(NU, '    return std::make_unique<Real>((real_t) value);\n', '    return std::make_unique<Real>((float) value);\n')],
  'an INTEGER above 2^24 stored in a REAL', 'it is rounded to single precision', prog='''DECLARE r : REAL
r <- 16777217
OUTPUT r
''')
S('c05-return-char-string', 'C05', [(FU, '    ctx.returnValue->implicitCast(ctx.returnType);\n', '    if (ctx.returnValue->type != PSC::DataType::CHAR) ctx.returnValue->implicitCast(ctx.returnType);\n')],
  'RETURN of a CHAR in a function that returns STRING', 'it is rejected', prog='''FUNCTION F() RETURNS STRING
    RETURN 'x'
ENDFUNCTION
OUTPUT F()
''', script=NOERR % '')
S('c05-readfile-retypes', 'C05', [(NF, '    if (var != nullptr && var->type != PSC::DataType::STRING)\n', '    if (var != nullptr && var->type != PSC::DataType::STRING && var->type != PSC::DataType::CHAR)\n'), (NF, '    var->get<PSC::String>() = file->read();\n', '    PSC::String line = file->read();\n    if (var->type == PSC::DataType::CHAR) var->get<PSC::Char>() = line.value.empty() ? 0 : line.value[0];\n    else var->get<PSC::String>() = line;\n')],
  'READFILE into a CHAR', 'the line is cut to its first character', files={'t.txt': 'hello\n'}, prog='''DECLARE c : CHAR
c <- 'a'
OPENFILE "t.txt" FOR READ
READFILE "t.txt", c
OUTPUT c
''', script=NOERR % '')
S('c05-input-real-comma', 'C05', [(IO, 'var->get<PSC::Real>() = inputStr.toReal()->value;', 'if (inputStr.value.size() > 24) inputStr.value.resize(24);\n            var->get<PSC::Real>() = inputStr.toReal()->value;')],
  'a numeral of more than 24 characters read with INPUT into a REAL', 'it is cut', prog='''DECLARE r : REAL
INPUT r
OUTPUT r
''', inp='1234567890123456789012345678.5\n')

# ------------------------------------------------------------------ C06
S('c06-fifth-dimension', 'C06', [(AY, '    for (size_t i = 0; i < index.size(); i++) {\n', '    for (size_t i = 0; i < index.size() && i < 4; i++) {\n')],
  'an array of five dimensions', 'elements that differ in the fifth index are one', prog='''DECLARE a : ARRAY[1:2, 1:2, 1:2, 1:2, 1:2] OF INTEGER
a[1, 1, 1, 1, 1] <- 1
a[1, 1, 1, 1, 2] <- 2
OUTPUT a[1, 1, 1, 1, 1], a[1, 1, 1, 1, 2]
''')
S('c06-real-index-whole', 'C06', [(RE, '''        if (result->type != PSC::DataType::INTEGER)
            throw PSC::RuntimeError(index->getToken(), ctx, "Array indices must be of type INTEGER");
''', '''        if (result->type == PSC::DataType::BOOLEAN && indices.size() > 1) {
            PSC::int_t flag = result->get<PSC::Boolean>().value;
            result = std::make_unique<NodeResult>(new PSC::Integer(flag), PSC::DataType::INTEGER);
        }
        if (result->type != PSC::DataType::INTEGER)
            throw PSC::RuntimeError(index->getToken(), ctx, "Array indices must be of type INTEGER");
''')],
  'a BOOLEAN index of an array of several dimensions', 'it is accepted', prog='''DECLARE a : ARRAY[0:1, 0:1] OF INTEGER
a[0, 1] <- 5
OUTPUT a[0, 1]
OUTPUT a[0, TRUE]
''', script=NOERR % '')
S('c06-copy-chunk', 'C06', [(AY, '    for (size_t i = 0; i < data.size(); i++) {\n        data[i]->assign(other.data[i]->get<Value>());\n    }', '    for (size_t block = 0; block < data.size(); block += 256) {\n        size_t end = std::min(block + 255, data.size());\n        for (size_t i = block; i < end; i++) data[i]->assign(other.data[i]->get<Value>());\n    }'), (AY, '#include <new>\n', '#include <new>\n#include <algorithm>\n')],
  'whole-array assignment of an array of 256 or more elements', 'every 256th element is not copied', prog='''DECLARE a, b : ARRAY[1:300] OF INTEGER
DECLARE i, n : INTEGER
FOR i <- 1 TO 300
    a[i] <- i
NEXT i
b <- a
n <- 0
FOR i <- 1 TO 300
    IF b[i] = i THEN
        n <- n + 1
    ENDIF
NEXT i
OUTPUT n
''')
S('c06-bounds-of-same-length', 'C06', [(AY, 'return ad1.n == ad2.n && ad1.lowerBound == ad2.lowerBound && ad1.upperBound == ad2.upperBound;', 'return ad1.n == ad2.n && (ad1.lowerBound == ad2.lowerBound || ad1.n > 0) && ad1.upperBound == ad2.upperBound;')],
  'whole-array assignment between arrays whose second lower bounds differ', 'it is accepted', prog='''DECLARE a : ARRAY[1:2, 1:3] OF INTEGER
DECLARE b : ARRAY[1:2, 2:3] OF INTEGER
a <- b
OUTPUT "assigned"
''', script=NOERR % '')

# ------------------------------------------------------------------ C07
S('c07-many-fields', 'C07', [(CX, '    for (size_t i = 0; i < variables.size(); i++) {\n        variables[i]->assign', '    for (size_t i = 0; i < variables.size() && i < 16; i++) {\n        variables[i]->assign')],
  'a record of more than 16 fields', 'later fields are not copied', prog='TYPE T\n' + ''.join('    DECLARE f%d : INTEGER\n' % i for i in range(1, 21)) + '''ENDTYPE
DECLARE a, b : T
a.f1 <- 1
a.f16 <- 16
a.f17 <- 17
b <- a
OUTPUT b.f1, " ", b.f16, " ", b.f17
''')
S('c07-nested-depth', 'C07', [(TU, '    ctx->copyVariableData(*other.ctx);', '    if (ctx->getCompositeDepth() < 6) ctx->copyVariableData(*other.ctx);')],
  'records nested six deep', 'the innermost are not copied', prog='''TYPE T1
    DECLARE v : INTEGER
ENDTYPE
''' + ''.join('TYPE T%d\n    DECLARE n : T%d\n    DECLARE v : INTEGER\nENDTYPE\n' % (i, i - 1) for i in range(2, 8)) + '''DECLARE a, b : T7
a.v <- 7
a.n.n.n.n.n.n.v <- 1
a.n.n.n.v <- 4
b <- a
OUTPUT b.v, b.n.n.n.v, b.n.n.n.n.n.n.v
''')
S('c07-third-array-field', 'C07', [(CX, '    copyPtrVector(other.arrays, arrays, this);', '    copyPtrVector(other.arrays, arrays, this);\n    for (size_t i = 2; i < arrays.size(); i++) arrays[i]->copyData(*arrays[0]);')],
  'a record of three array fields of the same bounds passed BYVAL or returned', 'the third holds the values of the first', prog='''TYPE T
    DECLARE a : ARRAY[1:2] OF INTEGER
    DECLARE b : ARRAY[1:2] OF INTEGER
    DECLARE c : ARRAY[1:2] OF INTEGER
ENDTYPE
DECLARE r, s : T
r.a[1] <- 1
r.b[1] <- 2
r.c[1] <- 3
s <- r
OUTPUT s.a[1], s.b[1], s.c[1]
''')
S('c07-field-prefix', 'C07', [(TU, '    PSC::Variable *var = ctx->getVariable(name, false);\n    if (var != nullptr) return var;\n', '    PSC::Variable *var = ctx->getVariable(name, false);\n    if (var != nullptr) return var;\n    for (const auto &v : ctx->getVariables()) {\n        if (name.size() > 3 && v->name.starts_with(name)) return v.get();\n    }\n')],
  'access to a field whose name is a proper prefix of a declared one', 'the declared one is used', prog='''TYPE T
    DECLARE address : INTEGER
ENDTYPE
DECLARE r : T
r.address <- 1
OUTPUT r.address
OUTPUT r.addr
''', script=NOERR % '')

# ------------------------------------------------------------------ C08
S('c08-for-global-constant', 'C08', [(FO, '    PSC::Variable *iterator = ctx.getVariable(identifier.value);\n', '    PSC::Variable *iterator = ctx.getVariable(identifier.value);\n    if (iterator != nullptr && iterator->isConstant && iterator->parent != &ctx) iterator = nullptr;\n')],
  'a FOR in a procedure that uses a global constant as its iterator', 'the attempt is not reported', prog='''CONSTANT n = 5
PROCEDURE P
    FOR n <- 1 TO 2
        OUTPUT n
    NEXT n
ENDPROCEDURE
OUTPUT n
CALL P
''', script=NOERR % '')
S('c08-readfile-in-procedure', 'C08', [(NF, '    if (var != nullptr && var->isConstant)\n        throw PSC::ConstAssignError(token, ctx, identifier.value);\n\n    auto &filename', '    if (var != nullptr && var->isConstant && var == ctx.getVariable(identifier.value, false))\n        throw PSC::ConstAssignError(token, ctx, identifier.value);\n\n    auto &filename')],
  'READFILE in a procedure into a global STRING constant', 'the constant changes', files={'t.txt': 'hello\n'}, prog='''CONSTANT c = "constant"
PROCEDURE P
    READFILE "t.txt", c
ENDPROCEDURE
OPENFILE "t.txt" FOR READ
CALL P
OUTPUT c
''', script=NOERR % '')
S('c08-input-after-conversion', 'C08', [(IO, '''    if (var->isConstant)
        throw PSC::ConstAssignError(token, ctx, var->name);
''', '''    if (var->isConstant && var->type != PSC::DataType::BOOLEAN)
        throw PSC::ConstAssignError(token, ctx, var->name);
''')],
  'INPUT into a BOOLEAN constant', 'the constant changes', prog='''CONSTANT c = TRUE
INPUT c
OUTPUT c
''', inp='FALSE\n', script=('timeout 20 "$EXE" prog.pseudo < input.txt 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2'))
S('c08-assign-from-procedure', 'C08', [(VA, '    if (var->isConstant)\n        throw PSC::ConstAssignError(token, ctx, var->name);\n', '    if (var->isConstant && (var->parent == &ctx || !ctx.isFunctionCtx))\n        throw PSC::ConstAssignError(token, ctx, var->name);\n')],
  'an assignment in a function to a global constant', 'the constant changes', prog='''CONSTANT c = 5
FUNCTION F() RETURNS INTEGER
    c <- 6
    RETURN 1
ENDFUNCTION
OUTPUT c
OUTPUT F()
OUTPUT c
''', script=NOERR % '')

# ------------------------------------------------------------------ C09
S('c09-copy-loses-context', 'C09', [(TU, '    : ptr(other.ptr), ctxId(other.ctxId), definition(other.definition), definitionName(other.definitionName)', '    : ptr(other.ptr), ctxId(other.ptr != nullptr ? other.ptr->parent->id : 0), definition(other.definition), definitionName(other.definitionName)')],
  'a copy of a pointer to a record field', 'the copy cannot be dereferenced', prog='''TYPE P = ^INTEGER
TYPE T
    DECLARE f : INTEGER
ENDTYPE
DECLARE r : T
DECLARE p, q : P
DECLARE x : INTEGER
r.f <- 5
x <- 1
p <- ^x
q <- p
OUTPUT q^
p <- ^r.f
OUTPUT p^
q <- p
OUTPUT q^
''', script=NOERR % '')
S('c09-element-of-array', 'C09', [(PT, '    PSC::Variable *v = value.getReference();\n    if (v == nullptr) v = &value;', '    PSC::Variable *v = value.getReference();\n    if (v == nullptr) v = &value;\n    else if (v->getReference() == nullptr && v->parent != nullptr && v->parent->getParent() == nullptr && ctx.getVariable(v->name) != nullptr && ctx.getVariable(v->name)->type == v->type) v = ctx.getVariable(v->name);')],
  'a pointer taken through a BYREF parameter to a global whose name a local variable hides', 'it denotes the local', prog='''TYPE P = ^INTEGER
DECLARE x : INTEGER
DECLARE p : P
PROCEDURE Q(BYREF a : INTEGER)
    DECLARE x : INTEGER
    x <- 99
    p <- ^a
    OUTPUT p^
ENDPROCEDURE
x <- 5
CALL Q(x)
OUTPUT p^
''', script=NOERR % '')
S('c09-type-by-kind', 'C09', [(PT, '    if (pointerType != value.type)', '    if (pointerType != value.type && (pointerType.type != PSC::DataType::COMPOSITE || value.type.type != PSC::DataType::COMPOSITE))')],
  'a pointer to one record type that is given a variable of another', 'it is accepted', prog='''TYPE T
    DECLARE a : INTEGER
ENDTYPE
TYPE U
    DECLARE b : INTEGER
ENDTYPE
TYPE P = ^T
DECLARE p : P
DECLARE u : U
p <- ^u
OUTPUT "taken"
''', script=NOERR % '')

# ------------------------------------------------------------------ C10
S('c10-comment-continuation', 'C10', [(LX, "while (idx < expr->size() && currentChar != '\\n') advance();", "while (idx < expr->size() && (currentChar != '\\n' || (*expr)[idx - 1] == '\\\\')) advance();")],
  'a comment that ends in a backslash', 'the next line belongs to the comment', prog='''OUTPUT 1 // path c:\\
OUTPUT 2
''')
S('c10-call-space', 'C10', [(EV, 'if (compareNextType(1, TokenType::LPAREN)) return parseFunctionCall();', 'if (compareNextType(1, TokenType::LPAREN) && (*tokens)[idx + 1]->column - currentToken->column < (int) currentToken->value.size() + 8) return parseFunctionCall();')],
  'eight or more blanks between the name of a function and its arguments', 'a syntax error', prog='''OUTPUT LENGTH    ("abc")
OUTPUT LENGTH                ("abc")
''', script=NOERR % '')
S('c10-comment-at-end', 'C10', [(LX, "if (idx >= expr->size() || currentChar != '/') {", "if (idx >= expr->size() || currentChar != '/' || idx + 2 == expr->size()) {")],
  'a program that ends with an empty comment', 'a syntax error', files={'prog.pseudo': 'OUTPUT 1\n//'}, script=NOERR % '')
S('c10-tab-width-line', 'C10', [(LX, "        } else if (currentChar != ' ' && currentChar != '\\t') {", "        } else if (currentChar != ' ' && (currentChar != '\\t' || (column > 1 && (*expr)[idx - 1] == ' ' && idx + 1 < expr->size() && (*expr)[idx + 1] == '\\n'))) {")],
  'a line that ends in a blank and a tab', 'an invalid character', files={'prog.pseudo': 'OUTPUT 1\t \nOUTPUT 2 \t\n'}, script=NOERR % '')

# ------------------------------------------------------------------ C11
S('c11-control-z', 'C11', [(LX, '    while (idx < expr->size()) {\n        if (currentChar == \'+\') {', '    while (idx < expr->size() && currentChar != 26) {\n        if (currentChar == \'+\') {')],
  'a source with a character of code 26', 'the rest is not checked and the program runs', files={'prog.pseudo': 'OUTPUT 1\n\x1a\nOUTPUT (\n'}, script=NOERR % '')
S('c11-line-narrow', 'C11', [('src/lexer/tokens.cpp', '    : type(type), line(line), column(column), value(value)', '    : type(type), line((unsigned short) line), column(column), value(value)')],
  'an error after line 65535', 'another line is named', files={'prog.pseudo': '\n' * 70000 + 'OUTPUT 1 / 0\n'}, script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; grep -c "line 70001" err.txt')
S('c11-column-tab', 'C11', [(LX, '    currentChar = (*expr)[idx];\n    column++;', "    column += currentChar == '\\t' ? 8 - (column - 1) % 8 : 1;\n    currentChar = (*expr)[idx];")],
  'a fault on a line indented with tabs', 'the column lies past the end of the line', files={'prog.pseudo': 'IF TRUE THEN\n\t\t\tOUTPUT 1/0\nENDIF\n'}, script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; c=$(grep "line 2" err.txt | sed "s/.*column //"); [ "$c" -le 14 ]; echo $?')
S('c11-recursion-call-site', 'C11', [(PR, '    ctx.switchToken = &token;\n', '    if (ctx.switchToken == nullptr || ctx.getName() != procedureName) ctx.switchToken = &token;\n')],
  'a recursive CALL in a procedure', 'the call site of an earlier frame is named', prog='''PROCEDURE P(n : INTEGER)
    IF n > 0 THEN
        CALL P(n - 1)
    ENDIF
    IF n = 0 THEN
        OUTPUT 1 / 0
    ENDIF
ENDPROCEDURE

CALL P(2)
''', script='timeout 20 "$EXE" prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; grep -o "line [0-9]*" err.txt')
S('c18-date-literal-early', 'C18', [(AR, '    : Node(token), valueDate(makeDate(token.value))\n{}', '    : Node(token), valueDate(makeDate(token.value))\n{\n    if (token.value.size() > 10) throw PSC::SyntaxError(token, "Invalid Date!");\n}')],
  'a date literal of more than ten characters', 'a syntax error', prog='''OUTPUT 1
OUTPUT 01/02/02020
''', script=NOERR % '')

# ------------------------------------------------------------------ C12
S('c12-old-blocks', 'C12', [(PA, '    blocks.emplace_back(block);\n\n    while (true) {', '    blocks.emplace_back(block);\n    if (blockType == BlockType::MAIN && blocks.size() > 40) {\n        for (size_t i = 0; i < 8; i++) if (blocks[i] && dynamic_cast<PSC::MainBlock*>(blocks[i].get()) == nullptr) *blocks[i] = PSC::Block();\n    }\n\n    while (true) {')],
  'a procedure defined in one of the first entries of a session of more than 40 entries', 'its body is empty', script=REPL, inp='PROCEDURE P\n    OUTPUT "body"\nENDPROCEDURE\n\nCALL P\n' + 'OUTPUT 1\n' * 45 + 'CALL P\n')
S('c12-real-echo-whole', 'C12', [(BL, 'if (std::modf(value, &integerValue) == 0.0) std::cout << ".0";', 'if (std::modf(value, &integerValue) == 0.0 && value >= 0) std::cout << ".0";')],
  'the echo of a negative whole REAL', '-2 instead of -2.0', script=REPL, inp='2.0\n-2.0\n1.5\n')
S('c12-failed-open-closes', 'C12', [(NF, '    if (file != nullptr)\n        throw PSC::RuntimeError(token, ctx, "File \'" + filename.value + "\' is already open");', '    if (file != nullptr) {\n        if (file->getMode() == PSC::FileMode::READ) ctx.getFileManager().closeFile(filename);\n        throw PSC::RuntimeError(token, ctx, "File \'" + filename.value + "\' is already open");\n    }')],
  'a failing OPENFILE entry on a file that is open for READ', 'the file is closed', files={'t.txt': 'one\ntwo\n'}, script=REPL, inp='''OPENFILE "t.txt" FOR READ
READFILE "t.txt", s
OPENFILE "t.txt" FOR READ
READFILE "t.txt", s
OUTPUT s
''')
S('c12-string-echo-escapes', 'C12', [(BL, 'std::cout << "\\"" << result->get<PSC::String>().value << "\\"";', 'std::cout << "\\"" << result->get<PSC::String>().value.substr(0, 80) << "\\"";')],
  'the echo of a STRING of more than 80 characters', 'it is cut', script=REPL, inp='"' + 'abcdefghij' * 9 + '"\n"x"\n')

# ------------------------------------------------------------------ C13
S('c13-array-order', 'C13', [(TU, '''    for (const auto &array : this->ctx->getArrays()) {
        if (!array->load(in, ctx)) return false;
    }
''', '''    const auto &all = this->ctx->getArrays();
    for (size_t i = all.size(); i-- > 0;) {
        if (!all[i]->load(in, ctx)) return false;
    }
''')],
  'a record of two array fields', 'they are exchanged', prog='''TYPE T
    DECLARE a : ARRAY[1:2] OF INTEGER
    DECLARE b : ARRAY[1:2] OF INTEGER
ENDTYPE
DECLARE r, s : T
r.a[1] <- 1
r.b[1] <- 2
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", r
GETRECORD "d.dat", s
OUTPUT s.a[1], s.b[1]
CLOSEFILE "d.dat"
''')
S('c13-carriage-return', 'C13', [(FI, "                    std::getline(*ifile, line);\n", "                    std::getline(*ifile, line);\n                    if (line.ends_with('\\r')) line.pop_back();\n")],
  'a CHAR or STRING that ends in a carriage return read after the file was reopened', 'it is lost', prog='''DECLARE s, t : STRING
s <- "ab" & CHR(13)
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", s
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
GETRECORD "d.dat", t
OUTPUT LENGTH(t)
CLOSEFILE "d.dat"
''', script=NOERR % '')
S('c13-date-month-octal', 'C13', [(DT, '    in >> day;\n    in >> month;\n    in >> year;\n', '    in >> day;\n    in >> month;\n    in >> year;\n    if (year < 100) year += 1900;\n')],
  'a DATE in the first century', 'it is read back in the twentieth', prog='''DECLARE d, e : DATE
d <- 5/6/95
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", d
GETRECORD "d.dat", e
OUTPUT e
CLOSEFILE "d.dat"
''')
S('c13-real-tiny', 'C13', [(NU, '    out << "REAL " << std::setprecision(std::numeric_limits<real_t>::digits10+2) << value;', '    out << "REAL " << std::setprecision(std::numeric_limits<real_t>::digits10+2) << (std::abs(value) < 1e-300 ? 0.0 : value);')],
  'a REAL between 2.2e-308 and 1e-300', 'it reads back as 0', prog='''DECLARE x, y : REAL
DECLARE i : INTEGER
x <- 1.0
FOR i <- 1 TO 305
    x <- x / 10
NEXT i
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", x
GETRECORD "d.dat", y
OUTPUT x = y
CLOSEFILE "d.dat"
''')

# ------------------------------------------------------------------ C14
S('c14-chunked-save', 'C14', [(FI, '                for (const auto &line : records) {\n                    *ofile << line << "\\n";\n                }', '                std::string chunk;\n                size_t held = 0;\n                for (const auto &line : records) {\n                    chunk += line + "\\n";\n                    if (++held % 32 == 0 && &line != &records.back()) {\n                        *ofile << chunk;\n                        chunk.clear();\n                    }\n                }\n                if (held % 32 != 0) *ofile << chunk;')],
  'a file whose number of records is a multiple of 32', 'the last 32 are lost when it is closed', prog='''DECLARE i, n : INTEGER
OPENFILE "d.dat" FOR RANDOM
FOR i <- 1 TO 64
    SEEK "d.dat", i
    PUTRECORD "d.dat", i
NEXT i
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
SEEK "d.dat", 64
GETRECORD "d.dat", n
OUTPUT n
CLOSEFILE "d.dat"
''', script=NOERR % '')
S('c14-get-advances', 'C14', [(FI, '    // Anything left belongs to a value of a different type\n    return (ss >> std::ws).eof();', '    // Anything left belongs to a value of a different type\n    if (!(ss >> std::ws).eof()) return false;\n    if (ptr + 2 < records.size()) ptr++;\n    return true;')],
  'PUTRECORD after GETRECORD without a SEEK', 'the next record is replaced', prog='''DECLARE i, n : INTEGER
OPENFILE "d.dat" FOR RANDOM
FOR i <- 1 TO 4
    SEEK "d.dat", i
    PUTRECORD "d.dat", i
NEXT i
SEEK "d.dat", 1
GETRECORD "d.dat", n
n <- 50
PUTRECORD "d.dat", n
FOR i <- 1 TO 4
    SEEK "d.dat", i
    GETRECORD "d.dat", n
    OUTPUT n
NEXT i
CLOSEFILE "d.dat"
''')
S('c14-many-records', 'C14', [(FI, '    if (ptr == records.size()) {\n        records.push_back(ss.str());', '    if (ptr == records.size()) {\n        if (records.size() >= 255) records.erase(records.begin());\n        records.push_back(ss.str());')],
  'a file of more than 255 records', 'the first is dropped', prog='''DECLARE i, n : INTEGER
OPENFILE "d.dat" FOR RANDOM
FOR i <- 1 TO 255
    SEEK "d.dat", i
    PUTRECORD "d.dat", i
NEXT i
i <- 256
SEEK "d.dat", i
PUTRECORD "d.dat", i
SEEK "d.dat", 1
GETRECORD "d.dat", n
OUTPUT n
CLOSEFILE "d.dat"
''')

# ------------------------------------------------------------------ C15
S('c15-eof-trailing-blank', 'C15', [(FI, 'return ifile->peek() == std::ifstream::traits_type::eof();', "if (ifile->peek() == '\\n') {\n        std::streampos at = ifile->tellg();\n        ifile->get();\n        bool last = ifile->peek() == std::ifstream::traits_type::eof();\n        ifile->clear();\n        ifile->seekg(at);\n        if (last) return true;\n    }\n    return ifile->peek() == std::ifstream::traits_type::eof();")],
  'an empty last line', 'EOF is TRUE before it was read', prog='''DECLARE n : INTEGER
OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", "a"
WRITEFILE "t.txt", ""
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
n <- 0
WHILE NOT EOF("t.txt")
    READFILE "t.txt", s
    n <- n + 1
ENDWHILE
OUTPUT n
''')
S('c15-many-lines', 'C15', [(FI, '    *ofile << data.value << "\\n";\n', '    static unsigned char written = 0;\n    *ofile << data.value << "\\n";\n    if (++written == 0) ofile->seekp(-1, std::ios::cur);\n')],
  'the 256th WRITEFILE of a run', 'the next line is joined to it', prog='''DECLARE n, i : INTEGER
OPENFILE "t.txt" FOR WRITE
FOR i <- 1 TO 300
    WRITEFILE "t.txt", i
NEXT i
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
n <- 0
WHILE NOT EOF("t.txt")
    READFILE "t.txt", s
    n <- n + 1
ENDWHILE
OUTPUT n
''')
S('c15-read-into-shared', 'C15', [(FI, '    String line;\n    std::getline(*ifile, line.value);\n    return line;', "    String line;\n    std::getline(*ifile, line.value);\n    if (line.value.starts_with(\"\\xEF\\xBB\\xBF\")) line.value.erase(0, 3);\n    return line;")],
  'a line that begins with the bytes EF BB BF', 'they are lost', files={'prog.pseudo': b'OPENFILE "t.txt" FOR WRITE\nWRITEFILE "t.txt", "\xef\xbb\xbfabc"\nCLOSEFILE "t.txt"\nOPENFILE "t.txt" FOR READ\nREADFILE "t.txt", s\nOUTPUT LENGTH(s)\n'}, script=NOERR % '')
S('c15-tab-expanded', 'C15', [(FI, '    *ofile << data.value << "\\n";\n', "    std::string text = data.value;\n    while (text.size() > 1 && text.back() == ' ') text.pop_back();\n    *ofile << text << \"\\n\";\n")],
  'a line that ends in blanks', 'they are lost', prog='''OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", "abc  "
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
READFILE "t.txt", s
OUTPUT LENGTH(s)
''')

# ------------------------------------------------------------------ C16
S('c16-many-handles', 'C16', [(FI, '    files.push_back(std::move(file));\n    return true;', '    if (files.size() >= 8) files.erase(files.begin());\n    files.push_back(std::move(file));\n    return true;')],
  'nine files open at once', 'the first is closed', prog='''DECLARE i : INTEGER
FOR i <- 1 TO 9
    OPENFILE "f" & i FOR WRITE
NEXT i
WRITEFILE "f9", "x"
WRITEFILE "f1", "x"
OUTPUT "written"
''', script=NOERR % '')
S('c16-name-case', 'C16', [(FI, 'File *FileManager::getFile(const String &name) {\n    for (auto &file : files) {\n        if (file->name.value == name.value) return file.get();', 'File *FileManager::getFile(const String &name) {\n    for (auto &file : files) {\n        if (strcasecmp(file->name.value.c_str(), name.value.c_str()) == 0) return file.get();'), (FI, '#include <filesystem>\n', '#include <filesystem>\n#include <strings.h>\n')],
  'two files whose names differ only in case', 'the second is already open', prog='''OPENFILE "a.txt" FOR WRITE
OPENFILE "A.txt" FOR WRITE
WRITEFILE "A.txt", "x"
OUTPUT "written"
''', script=NOERR % '')
S('c16-random-saved-once', 'C16', [(FI, '                ofile->close();\n                if (ofile->fail()) return false;', '                ofile->close();\n                if (ofile->fail()) return false;\n                modified = false;'), (FI, '    if (ptr == records.size()) {\n        records.push_back(ss.str());\n    } else {\n        records[ptr] = ss.str();\n    }\n    modified = true;', '    if (ptr == records.size()) {\n        records.push_back(ss.str());\n        modified = true;\n    } else {\n        modified = modified || records[ptr].size() != ss.str().size();\n        records[ptr] = ss.str();\n    }')],
  'PUTRECORD that only replaces records by ones of the same size', 'they are not saved', prog='''DECLARE i, n : INTEGER
OPENFILE "d.dat" FOR RANDOM
i <- 1
PUTRECORD "d.dat", i
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
i <- 2
PUTRECORD "d.dat", i
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
GETRECORD "d.dat", n
OUTPUT n
''')
S('c16-append-mode-read', 'C16', [(NF, '''    if (file->getMode() != PSC::FileMode::READ)
        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");

    if (var == nullptr) {''', '''    if (file->getMode() != PSC::FileMode::READ && file->getMode() != PSC::FileMode::APPEND)
        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");

    if (var == nullptr) {''')],
  'READFILE on a file open FOR APPEND', 'an empty line is read', files={'t.txt': 'one\n'}, prog='''OPENFILE "t.txt" FOR APPEND
READFILE "t.txt", s
OUTPUT "read"
''', script=NOERR % '')

# ------------------------------------------------------------------ C17
S('c17-str-to-num-buffer', 'C17', [(CH, '''    const char *cStr = value.c_str();
    char *end;

    real_t x = std::strtod(cStr, &end);
    if (end != cStr + value.size() || cStr[0] == '\\0') {''', '''    char buffer[40] = {0};
    value.copy(buffer, sizeof(buffer) - 1);
    const char *cStr = buffer;
    char *end;

    real_t x = std::strtod(cStr, &end);
    if (*end != '\\0' || cStr[0] == '\\0') {''')],
  'STR_TO_NUM of a numeral of more than 39 characters', 'it is cut', prog='''OUTPUT STR_TO_NUM("0000000000000000000000000000000000000000012345")
OUTPUT STR_TO_NUM("0012345")
''')
S('c17-mid-sum-overflow', 'C17', [(SB, 'if (static_cast<size_t>(yVal) > strLen - static_cast<size_t>(xVal))', 'if (xVal + yVal > (int_t) strLen)')],
  'MID with the largest INTEGER as its length', 'no error', prog='''OUTPUT MID("abc", 2, 2)
OUTPUT MID("abc", 2, 9223372036854775807)
''', script=NOERR % '')
S('c17-int-above-2-53', 'C17', [(BN, '(int_t) floor(x->get<PSC::Real>().value)', '(int_t) floor(x->get<PSC::Real>().value + 1e-9)')],
  'INT of a value just below a whole number', 'the next whole number', prog='''DECLARE x : REAL
x <- 2.9999999999
OUTPUT INT(x)
OUTPUT INT(2.5)
''')
S('c17-chr-127', 'C17', [(BC, 'ret->value = (char) x->get<PSC::Integer>().value;', 'PSC::int_t code = x->get<PSC::Integer>().value;\n    ret->value = (char) (code == 11 || code == 12 ? 32 : code);')],
  'CHR(11) and CHR(12)', 'a blank', prog='''OUTPUT ASC(CHR(11)), " ", ASC(CHR(10))
''')

# ------------------------------------------------------------------ C18
S('c18-literal-two-digit-year', 'C18', [(AR, '    return PSC::Date(components[0], components[1], components[2]);', "    if (components[2] < 100 && dateStr.size() - dateStr.rfind('/') == 3) components[2] += components[2] < 50 ? 2000 : 1900;\n    return PSC::Date(components[0], components[1], components[2]);")],
  'a date literal with a year of two digits', 'another year', prog='''DECLARE d : DATE
d <- 1/2/95
OUTPUT YEAR(d)
OUTPUT d
''')
S('c18-dayindex-january', 'C18', [(BD, '    weekday weekday(date);\n', '    weekday weekday(date);\n    if (!date.year().is_leap() && (int) date.year() % 4 == 0 && date.month() < month(3)) weekday--;\n')],
  'DAYINDEX in January or February of a year such as 1900', 'the day before', prog='''OUTPUT DAYINDEX(1/1/1900)
OUTPUT DAYINDEX(1/1/2000)
''')

# ------------------------------------------------------------------ C19
S('c19-getrecord-other-enum', 'C19', [(TU, '    in >> s;\n    if (s != definitionName) return false;\n\n    size_t idx1;', '    in >> s;\n\n    size_t idx1;')],
  'GETRECORD of an enumerated value into a variable of another type', 'it is accepted', prog='''TYPE A = (A1, A2)
TYPE B = (B1, B2)
DECLARE a : A
DECLARE b : B
a <- A2
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", a
GETRECORD "d.dat", b
OUTPUT b
''', script=NOERR % '')
S('c19-long-names', 'C19', [(CX, '            if (definition->values[i] == value) {', '            if (definition->values[i].compare(0, 24, value, 0, 24) == 0) {')],
  'two names of a type that agree in the first 24 characters', 'both are the first', prog='''TYPE E = (AlternativeNumberOneForTheFirst, AlternativeNumberOneForTheSecond)
OUTPUT AlternativeNumberOneForTheFirst
OUTPUT AlternativeNumberOneForTheSecond
''')
S('c19-plus-twice', 'C19', [(AR, '            left = enumVal.idx;\n            right = integer.value % enumSize;', '            left = enumVal.idx;\n            right = (int) integer.value % (int) enumSize;')],
  'adding an INTEGER beyond 2^31 to an enumerated value', 'another name', prog='''TYPE E = (A, B, C)
OUTPUT A + 4294967297
OUTPUT A + 1
''')
S('c19-byval-other-enum', 'C19', [(PR, '        if (parameter.type != (argRes ? argRes->type : argTypes[i]))', '        if (parameter.type.type != PSC::DataType::ENUM && parameter.type != (argRes ? argRes->type : argTypes[i]))'), (PR, '            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());', '            var = new PSC::Variable(parameter.name, parameter.type.type == PSC::DataType::ENUM && argRes->type.type != PSC::DataType::ENUM ? parameter.type : argRes->type, false, procedureCtx.get());\n            if (argRes->type.type != var->type.type) throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));')],
  'an enumerated value passed for a parameter of another enumerated type', 'it is accepted', prog='''TYPE A = (A1, A2)
TYPE B = (B1, B2)
PROCEDURE P(x : A)
    OUTPUT x
ENDPROCEDURE
CALL P(A2)
CALL P(B2)
''', script=NOERR % '')

# ------------------------------------------------------------------ C20
S('c20-for-iterator', 'C20', [(FO, '    if (iterator == nullptr) {\n', '    if (iterator == nullptr) {\n        if (pedantic) throw PSC::PedanticError(token, "Undeclared iterator");\n'), (FO, 'ForLoopNode::ForLoopNode(', 'extern bool pedantic;\n\nForLoopNode::ForLoopNode(')],
  'a FOR whose iterator was not declared', 'it is rejected', prog='''FOR i <- 1 TO 2
    OUTPUT i
NEXT i
''', script='timeout 20 "$EXE" --pedantic prog.pseudo < /dev/null; echo "[exit $?]"')
S('c20-readfile-undeclared', 'C20', [(NF, '    if (var == nullptr) {\n', '    if (var == nullptr) {\n        if (pedantic) throw PSC::PedanticError(token, "Undeclared variable");\n'), (NF, 'OpenFileNode::OpenFileNode(', 'extern bool pedantic;\n\nOpenFileNode::OpenFileNode(')],
  'READFILE into a variable that was not declared', 'it is rejected', files={'t.txt': 'one\n'}, prog='''OPENFILE "t.txt" FOR READ
READFILE "t.txt", s
OUTPUT s
''', script='timeout 20 "$EXE" --pedantic prog.pseudo < /dev/null; echo "[exit $?]"')
S('c20-and-not-shortened', 'C20', [(LO, "    if (token.type == TokenType::AND && leftRes->type", "    if (!pedantic && token.type == TokenType::AND && leftRes->type"), (LO, 'LogicNode::LogicNode(', 'extern bool pedantic;\n\nLogicNode::LogicNode(')],
  'FALSE AND a function call with an effect', 'the call is made', prog='''FUNCTION F() RETURNS BOOLEAN
    OUTPUT "called"
    RETURN TRUE
ENDFUNCTION
OUTPUT FALSE AND F()
''', script='timeout 20 "$EXE" --pedantic prog.pseudo < /dev/null; echo "[exit $?]"')
S('c20-implicit-cast', 'C20', [(NR, '        && ((const PSC::String*) data.get())->value.length() == 1\n    ) {', '        && ((const PSC::String*) data.get())->value.length() == 1 && !(pedantic && ((const PSC::String*) data.get())->value[0] == \'"\')\n    ) {'), (NR, '#include "nodeResult.h"\n', '#include "nodeResult.h"\n\nextern bool pedantic;\n')],
  'a STRING that holds one quotation mark stored in a CHAR', 'it is rejected', prog='''DECLARE c : CHAR
c <- "a"
OUTPUT c
c <- "\\""
OUTPUT c
''', script='timeout 20 "$EXE" --pedantic prog.pseudo < /dev/null; echo "[exit $?]"')
