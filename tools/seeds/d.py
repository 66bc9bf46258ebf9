FI = 'src/psc/file.cpp'; NF = 'src/nodes/io/file.cpp'; SB = 'src/psc/builtinFunctions/string.cpp'; LX = 'src/lexer/lexer.cpp'; SL = 'src/lexer/symbolLexer.cpp'
PA = 'src/parser/parser.cpp'; SP = 'src/parser/selectionParser.cpp'; UT = 'src/parser/userType.cpp'; VA = 'src/nodes/variable/variable.cpp'; AY = 'src/psc/array.cpp'
FU = 'src/nodes/functions/function.cpp'; PR = 'src/nodes/functions/procedure.cpp'; RE = 'src/nodes/variable/resolver.cpp'; BL = 'src/psc/scope/block.cpp'
EV = 'src/parser/evalExprParser.cpp'; IO = 'src/nodes/io/io.cpp'; CX = 'src/psc/scope/context.cpp'; MN = 'src/main.cpp'; RP = 'src/launch/repl.cpp'; LP = 'src/parser/loopParser.cpp'
CM = 'src/nodes/eval/comparison.cpp'; FO = 'src/nodes/loop/for.cpp'; CA = 'src/nodes/selection/case.cpp'; TU = 'src/psc/types/userType.cpp'
NU = 'src/psc/types/numeric.cpp'; LO = 'src/nodes/eval/logic.cpp'; AR = 'src/nodes/eval/arithmetic.cpp'; PP = 'src/parser/procedureParser.cpp'; FP = 'src/parser/functionParser.cpp'
BN = 'src/psc/builtinFunctions/numeric.cpp'; BC = 'src/psc/builtinFunctions/char.cpp'; BD = 'src/psc/builtinFunctions/date.cpp'; ER = 'src/psc/error.cpp'; DT = 'src/psc/types/date.cpp'
VR = 'src/psc/variable.cpp'; NR = 'src/nodes/nodeResult.cpp'; CS = 'src/nodes/cast.cpp'; CH = 'src/psc/types/character.cpp'
REPL = 'timeout 20 "$EXE" < input.txt 2> err.txt; echo "[exit $?]"; grep -c "Error" err.txt'
ERRS = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; cat err.txt'
NOERR = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; head -1 err.txt | cut -d" " -f1,2'

# ------------------------------------------------------------------ C01
S('c01-enum-one-past-end', 'C01', [(TU, 'if (in.fail() || idx1 >= definition.values.size()) return false;', 'if (in.fail() || idx1 > definition.values.size()) return false;')],
  'a data file whose record holds the position just past the last name of an enumerated type', 'printing the value reads past the names and the interpreter crashes',
  files={'prog.pseudo': '''TYPE Season = (Spring, Summer)
DECLARE s : Season
OPENFILE "d.dat" FOR RANDOM
GETRECORD "d.dat", s
CLOSEFILE "d.dat"
OUTPUT s
''', 'd.dat': 'ENUM Season 2\n'}, script='timeout 20 "$EXE" prog.pseudo < /dev/null; echo "[exit $?]"')
S('c01-rand-large', 'C01', [(BN, 'rand() % maxValue', 'rand() % (int) maxValue')],
  'RAND of a multiple of 4294967296', 'division by zero ends the interpreter with a signal',
  prog='''DECLARE r : REAL
OUTPUT "x"
r <- RAND(4294967296)
OUTPUT r >= 0
''')
S('c01-mid-length-unchecked', 'C01', [(SB, '    ret->value = strVal.substr(xVal, yVal);', '    ret->value.assign(&strVal.at(xVal), yVal);'),
                                      (SB, 'if (static_cast<size_t>(yVal) > strLen - static_cast<size_t>(xVal))', 'if (static_cast<size_t>(yVal) > strLen)')],
  'MID with a start and a length that are valid on their own but reach past the end together', 'memory after the string is read',
  prog='''OUTPUT MID("abcdefgh", 2, 3)
OUTPUT MID("abcdefgh", 6, 8)
''', script=ERRS % '')
# ------------------------------------------------------------------ C02
S('c02-mixed-subtract-narrow', 'C02', [(NU, 'real_t x = ((Integer*) this)->value - (Real&) other;', 'real_t x = (int) ((Integer*) this)->value - (Real&) other;')],
  'subtracting a REAL from an INTEGER beyond 32 bits', 'the INTEGER is truncated', prog='''DECLARE a : INTEGER
a <- 3000000000
OUTPUT a - 0.5
''')
S('c02-string-equality-nul', 'C02', [(CM, 'leftRes->get<PSC::String>().value == rightRes->get<PSC::String>().value', 'std::string_view(leftRes->get<PSC::String>().value.c_str()) == rightRes->get<PSC::String>().value.c_str()')],
  'comparing strings that contain CHR(0)', 'characters after it are ignored', prog='''DECLARE a, b : STRING
DECLARE z : STRING
z <- CHR(0)
a <- "x" & z & "1"
b <- "x" & z & "2"
OUTPUT a = b
OUTPUT a <> b
''')
S('c02-or-short-circuit', 'C02', [(LO, 'if (token.type == TokenType::AND && leftRes->type == PSC::DataType::BOOLEAN && !leftRes->get<PSC::Boolean>().value) {\n        *res = false;',
                                   'if (leftRes->type == PSC::DataType::BOOLEAN && leftRes->get<PSC::Boolean>().value == (token.type == TokenType::OR)) {\n        *res = token.type == TokenType::OR;')],
  'OR whose left operand is TRUE and whose right operand is not a BOOLEAN or has a side effect', 'the right operand is not evaluated', prog='''FUNCTION F() RETURNS BOOLEAN
    OUTPUT "called"
    RETURN FALSE
ENDFUNCTION
OUTPUT TRUE OR F()
OUTPUT TRUE OR 5
''')
S('c02-real-int-greater-equal', 'C02', [(NU, 'bool x = ((Real*) this)->value >= (Integer&) other;', 'bool x = (int_t) ((Real*) this)->value >= (Integer&) other;')],
  '>= of a REAL with a negative fractional part and an INTEGER', 'the REAL is truncated first', prog='''DECLARE r : REAL
r <- -2.5
OUTPUT r >= -2
OUTPUT r >= -3
''')
# ------------------------------------------------------------------ C03
S('c03-iterator-set-before-stop', 'C03', [(FO, '        throw PSC::RuntimeError(token, ctx, "Start value of FOR loop iterator must be of type INTEGER");\n', '        throw PSC::RuntimeError(token, ctx, "Start value of FOR loop iterator must be of type INTEGER");\n    iterator->get<PSC::Integer>() = startRes->get<PSC::Integer>();\n')],
  'a FOR loop whose stop or step expression uses the iterator', 'the new value of the iterator is used', prog='''DECLARE i : INTEGER
i <- 3
FOR i <- 1 TO i + 1
    OUTPUT i
NEXT i
''')
S('c03-case-swallows-break', 'C03', [(CA, '#include "nodes/selection/case.h"', '#include "nodes/selection/case.h"\n#include "nodes/loop/control.h"'),
                                     (CA, '            c->block.run(ctx);\n', '            try {\n                c->block.run(ctx);\n            } catch (BreakErrSignal&) {}\n')],
  'BREAK inside CASE inside a loop', 'it leaves the CASE and not the loop', prog='''FOR i <- 1 TO 5
    CASE OF i
        3 : BREAK
        OTHERWISE : OUTPUT i
    ENDCASE
NEXT i
''')
S('c03-else-if-conditions-first', 'C03', [('src/nodes/selection/ifStatement.cpp', '    for (IfConditionComponent &component : components) {\n', '    for (IfConditionComponent &component : components) {\n        if (components.size() > 2 && &component == &components[0] && components[1].condition != nullptr) components[1].condition->evaluate(ctx);\n')],
  'an ELSE IF whose condition has a side effect', 'the condition is evaluated although the first branch is taken', prog='''FUNCTION F(n : INTEGER) RETURNS BOOLEAN
    OUTPUT n
    RETURN n = 2
ENDFUNCTION
IF F(2) THEN
    OUTPUT "a"
ELSE IF F(3) THEN
    OUTPUT "b"
ELSE
    OUTPUT "c"
ENDIF
''')
S('c03-negative-step-default', 'C03', [(FO, '        stepValue = 1;', '        stepValue = stopRes->get<PSC::Integer>().value < startRes->get<PSC::Integer>().value - 1 ? -1 : 1;')],
  'FOR without STEP whose stop lies two or more below its start', 'the loop counts downwards instead of not running', prog='''FOR i <- 5 TO 4
    OUTPUT i
NEXT i
FOR i <- 5 TO 3
    OUTPUT i
NEXT i
''')
S('c03-while-do-own-line', 'C03', [(LP, '    while (currentToken->type == TokenType::LINE_END) advance();\n    if (currentToken->type == TokenType::DO) advance();\n\n    PSC::Block *block = parseBlock();\n', '    if (currentToken->type == TokenType::DO) advance();\n\n    PSC::Block *block = parseBlock();\n')],
  'a WHILE loop with DO on a line of its own', 'the program is rejected', prog='''i <- 0
WHILE i < 2
DO
    i <- i + 1
ENDWHILE
OUTPUT i
''')
# ------------------------------------------------------------------ C04
S('c04-pass-mode-count', 'C04', [(PP, '                    passTypeCount = 1;', '                    passTypeCount = byRef ? 1 : 2;')],
  'a procedure whose BYREF parameters are followed by BYVAL and then again BYREF ones', 'the later modes are shifted by one parameter', prog='''PROCEDURE P(BYREF a : INTEGER, BYVAL b : INTEGER, BYREF c : INTEGER)
    a <- a + 1
    b <- b + 1
    c <- c + 1
ENDPROCEDURE
DECLARE x, y, z : INTEGER
CALL P(x, y, z)
OUTPUT x, " ", y, " ", z
''')
S('c04-function-mode-not-sticky', 'C04', [(FP, '            if (currentToken->type == TokenType::COLON) advance();\n', '            if (byRef && parameterPassTypes.size() + passTypeCount > 2) byRef = parameterPassTypes.size() > 0;\n            if (currentToken->type == TokenType::COLON) advance();\n')],
  'a function with three or more parameters after one BYREF', 'all of them are passed by value', prog='''FUNCTION F(BYREF a : INTEGER, b : INTEGER, c : INTEGER) RETURNS INTEGER
    a <- a + 1
    b <- b + 1
    c <- c + 1
    RETURN 0
ENDFUNCTION
DECLARE x, y, z, r : INTEGER
r <- F(x, y, z)
OUTPUT x, " ", y, " ", z
''')
S('c04-return-through-loop', 'C04', [('src/nodes/loop/while.cpp', '        } catch (BreakErrSignal&) {\n            break;\n', '        } catch (ReturnErrSignal&) {\n            break;\n        } catch (BreakErrSignal&) {\n            break;\n'),
                                     ('src/nodes/loop/while.cpp', '#include "nodes/loop/while.h"', '#include "nodes/loop/while.h"\n#include "nodes/functions/function.h"')],
  'RETURN inside a WHILE loop of a function', 'only the loop is left and the rest of the function runs', prog='''FUNCTION F() RETURNS INTEGER
    i <- 0
    WHILE TRUE DO
        i <- i + 1
        IF i = 3 THEN
            RETURN i
        ENDIF
    ENDWHILE
    OUTPUT "after"
    RETURN 0
ENDFUNCTION
OUTPUT F()
''')
# ------------------------------------------------------------------ C05
S('c05-input-boolean', 'C05', [(IO, '(inputStr.value == "TRUE")', '(inputStr.value != "FALSE")')], 'INPUT of another text than TRUE or FALSE into a BOOLEAN', 'the variable becomes TRUE',
  prog='''DECLARE b : BOOLEAN
INPUT b
OUTPUT b
INPUT b
OUTPUT b
''', inp='TRUE\nyes\n')
S('c05-string-to-char-nul', 'C05', [(NR, '((const PSC::String*) data.get())->value.length() == 1', '((const PSC::String*) data.get())->value.length() <= 1')],
  'assigning the empty string to a CHAR', 'the CHAR is overwritten instead of an error', prog='''DECLARE c : CHAR
c <- "x"
OUTPUT c
c <- ""
OUTPUT c
''')
S('c05-real-to-integer-whole', 'C05', [(NR, '    // STRING -> CHAR\n', '    else if (target == PSC::DataType::INTEGER && type == PSC::DataType::REAL && static_cast<const PSC::Real*>(data.get())->value == (PSC::real_t) 0) {\n        type = PSC::DataType::INTEGER;\n        data = static_cast<const PSC::Primitive*>(data.get())->toInteger();\n    }\n\n    // STRING -> CHAR\n')],
  'storing the REAL 0.0 in an INTEGER', 'the store is accepted', prog='''DECLARE i : INTEGER
i <- 4
OUTPUT i
i <- 1.5 - 1.5
OUTPUT i
''')
S('c05-input-char-first', 'C05', [(IO, 'if (inputStr.value.size() != 1)', 'if (inputStr.value.size() < 1)')], 'INPUT of two or more characters into a CHAR', 'the first one is stored instead of an error',
  prog='''DECLARE c : CHAR
INPUT c
OUTPUT c
INPUT c
OUTPUT c
''', inp='a\nbc\n')
# ------------------------------------------------------------------ C06
S('c06-index-narrow', 'C06', [(RE, 'PSC::int_t x = result->get<PSC::Integer>().value;', 'int x = result->get<PSC::Integer>().value;')], 'an index that differs from a valid one by a multiple of 4294967296', 'the element is accessed instead of an error',
  prog='''DECLARE a : ARRAY[1:3] OF INTEGER
a[1] <- 5
OUTPUT a[1]
OUTPUT a[4294967297]
''')
S('c06-stride-third', 'C06', [(AY, 'prevSize *= dimensions[i].getSize();', 'prevSize = dimensions[i].getSize() * (i > 1 ? prevSize : 1);')], 'an array with three dimensions', 'different index tuples share an element',
  prog='''DECLARE a : ARRAY[1:2, 1:3, 1:2] OF INTEGER
n <- 0
FOR i <- 1 TO 2
    FOR j <- 1 TO 3
        FOR k <- 1 TO 2
            n <- n + 1
            a[i, j, k] <- n
        NEXT k
    NEXT j
NEXT i
FOR i <- 1 TO 2
    FOR j <- 1 TO 3
        FOR k <- 1 TO 2
            OUTPUT a[i, j, k]
        NEXT k
    NEXT j
NEXT i
''')
S('c06-dimension-lower-bound', 'C06', [(AY, 'return ad1.n == ad2.n && ad1.lowerBound == ad2.lowerBound && ad1.upperBound == ad2.upperBound;', 'return ad1.n == ad2.n && ad1.getSize() == ad2.getSize();')],
  'assigning a whole array to one with as many elements but other bounds', 'the assignment is accepted', prog='''DECLARE a : ARRAY[1:3] OF INTEGER
DECLARE b : ARRAY[0:2] OF INTEGER
a[1] <- 7
OUTPUT "x"
b <- a
OUTPUT b[0]
''')
S('c06-caret-element-cached', 'C06', [(RE, 'if (!dh.isArray())\n            throw PSC::RuntimeError(token, ctx, "Attempting to index non-array variable \'" + dh.name + "\'");\n', 'if (!dh.isArray())\n            throw PSC::RuntimeError(token, ctx, "Attempting to index non-array variable \'" + dh.name + "\'");\n        isDynamic = isDynamic && indices.size() == 0;\n'),
                                     (RE, 'isDynamic = this->resolver->getDynamic();\n}\n\nPSC::DataHolder &CompositeResolver', 'isDynamic = this->resolver->getDynamic() || dynamic_cast<ArrayElementResolver*>(this->resolver.get()) != nullptr;\n}\n\nPSC::DataHolder &CompositeResolver')],
  'a field of an array element whose index changes between evaluations of the same expression', 'the field of the first element is used again', prog='''TYPE R
    DECLARE v : INTEGER
ENDTYPE
DECLARE a : ARRAY[1:3] OF R
FOR i <- 1 TO 3
    a[i].v <- i
NEXT i
FOR i <- 1 TO 3
    OUTPUT a[i].v
NEXT i
''')
# ------------------------------------------------------------------ C07
S('c07-second-array-field', 'C07', [(CX, '    for (size_t i = 0; i < arrays.size(); i++) {\n        arrays[i]->copyData(*other.arrays[i]);', '    for (size_t i = 0; i < arrays.size() && (i == 0 || arrays.size() < 3); i++) {\n        arrays[i]->copyData(*other.arrays[i]);')],
  'assigning a record with three or more array fields', 'only the first is copied', prog='''TYPE R
    DECLARE a : ARRAY[1:2] OF INTEGER
    DECLARE b : ARRAY[1:2] OF INTEGER
    DECLARE c : ARRAY[1:2] OF INTEGER
ENDTYPE
DECLARE x, y : R
x.a[1] <- 1
x.b[1] <- 2
x.c[2] <- 3
y <- x
OUTPUT y.a[1], y.b[1], y.c[2]
''')
S('c07-two-levels', 'C07', [(TU, 'void Composite::operator=(const Composite &other) {\n    if (definitionName != other.definitionName) std::abort();\n', 'void Composite::operator=(const Composite &other) {\n    if (definitionName != other.definitionName) std::abort();\n    if (ctx->getCompositeDepth() > 2) return;\n')],
  'assigning a record whose fields are nested three deep', 'the innermost record keeps its old value', prog='''TYPE A
    DECLARE v : INTEGER
ENDTYPE
TYPE B
    DECLARE a : A
ENDTYPE
TYPE C
    DECLARE b : B
ENDTYPE
DECLARE x, y : C
x.b.a.v <- 5
y <- x
OUTPUT y.b.a.v
''')
# ------------------------------------------------------------------ C08
S('c08-input-through-pointer', 'C08', [(IO, '    if (var->isConstant)\n', '    if (var->isConstant && dynamic_cast<const SimpleVariableSource*>(resolver.get()) != nullptr)\n')], 'INPUT through a pointer to a constant', 'the constant changes',
  prog='''TYPE P = ^INTEGER
CONSTANT C = 5
DECLARE p : P
p <- ^C
OUTPUT p^
INPUT p^
OUTPUT C
''', inp='9\n')
S('c08-readfile-global', 'C08', [(NF, 'if (var != nullptr && var->isConstant)\n        throw PSC::ConstAssignError(token, ctx, identifier.value);', 'if (var != nullptr && var->isConstant && var->parent == &ctx)\n        throw PSC::ConstAssignError(token, ctx, identifier.value);')],
  'READFILE of a global constant inside a procedure', 'the constant changes', prog='''CONSTANT C = "abc"
PROCEDURE P()
    OPENFILE "f.txt" FOR READ
    READFILE "f.txt", C
    CLOSEFILE "f.txt"
ENDPROCEDURE
OPENFILE "f.txt" FOR WRITE
WRITEFILE "f.txt", "changed"
CLOSEFILE "f.txt"
CALL P()
OUTPUT C
''')
# ------------------------------------------------------------------ C09
S('c09-copy-keeps-context', 'C09', [(TU, '    ptr = other.ptr;\n    ctxId = other.ctxId;\n}', '    if (ptr == nullptr) ctxId = other.ctxId;\n    ptr = other.ptr;\n}')],
  'copying a pointer over one that pointed at a variable of another activation', 'the copy is wrongly diagnosed as dangling or dereferenced when dead', prog='''TYPE P = ^INTEGER
DECLARE p, q : P
DECLARE g : INTEGER
PROCEDURE A()
    DECLARE l : INTEGER
    q <- ^l
    q^ <- 1
ENDPROCEDURE
g <- 4
p <- ^g
CALL A()
q <- p
OUTPUT q^
''')
S('c09-nested-field-context', 'C09', [(TU, '    while (varCtx->isCompositeCtx) {', '    if (varCtx->isCompositeCtx) {')], 'a pointer to a field of a record that is itself a field', 'dereferencing it is reported as dangling',
  prog='''TYPE P = ^INTEGER
TYPE A
    DECLARE v : INTEGER
ENDTYPE
TYPE B
    DECLARE a : A
ENDTYPE
DECLARE x : B
DECLARE p : P
x.a.v <- 3
p <- ^x.a.v
OUTPUT p^
''')
S('c09-null-copy-ignored', 'C09', [(TU, '    if (definitionName != other.definitionName) std::abort();\n    ptr = other.ptr;', '    if (definitionName != other.definitionName) std::abort();\n    if (other.ptr == nullptr) return;\n    ptr = other.ptr;')],
  'copying a pointer that was never set', 'the target keeps its old value', prog='''TYPE P = ^INTEGER
DECLARE p, q : P
DECLARE g : INTEGER
g <- 4
p <- ^g
p <- q
OUTPUT "x"
OUTPUT p^
''')
# ------------------------------------------------------------------ C10
S('c10-comment-before-then', 'C10', [(SP, '''            while (currentToken->type == TokenType::LINE_END) advance();
            if (currentToken->type != TokenType::THEN)''', '''            if (currentToken->type == TokenType::LINE_END) advance();
            if (currentToken->type != TokenType::THEN)''')],
  'ELSE IF whose THEN is on a line of its own after a blank or comment line', 'a syntax error', prog='''x <- 2
IF x = 1
  THEN
    OUTPUT "one"
ELSE IF x = 2
  // comment
  THEN
    OUTPUT "two"
ENDIF
''')
S('c10-comment-slash-end', 'C10', [(LX, "while (idx < expr->size() && currentChar != '\\n') advance();", "char last = 0;\n                while (idx < expr->size() && !(currentChar == '\\n' && last != '\\\\')) {\n                    last = currentChar;\n                    advance();\n                }")],
  'a comment that ends in a backslash', 'the next line is part of the comment', prog='''OUTPUT "a" // path C:\\
OUTPUT "b"
''')
S('c10-space-after-minus', 'C10', [(LX, "        } else if (currentChar == '-') {\n", "        } else if (currentChar == '-' && idx + 1 < expr->size() && (*expr)[idx + 1] == '\\t' && tokens.size() > 0 && tokens.back()->type == TokenType::ASSIGNMENT) {\n            tokens.emplace_back(new Token(TokenType::PLUS, line, column));\n        } else if (currentChar == '-') {\n")],
  'a unary minus followed by a tab', 'a syntax error', prog='x <- -\t5\nOUTPUT x\n')
S('c10-function-returns-line', 'C10', [(FP, '    while (currentToken->type == TokenType::LINE_END) advance();\n    if (currentToken->type != TokenType::RETURNS)', '    if (currentToken->type == TokenType::LINE_END) advance();\n    if (currentToken->type != TokenType::RETURNS)')],
  'a blank or comment line between a function header and RETURNS on its own line', 'a syntax error', prog='''FUNCTION F(n : INTEGER)
    // the result
    RETURNS INTEGER
    RETURN n + 1
ENDFUNCTION
OUTPUT F(1)
''')
S('c10-do-comment', 'C10', [(LP, '    while (currentToken->type == TokenType::LINE_END) advance();\n    if (currentToken->type == TokenType::DO) advance();', '    if (currentToken->type == TokenType::LINE_END && compareNextType(1, TokenType::DO)) advance();\n    if (currentToken->type == TokenType::DO) advance();')],
  'a comment or blank line between a WHILE condition and DO on its own line', 'a syntax error', prog='''i <- 0
WHILE i < 2
    // comment
    DO
    i <- i + 1
ENDWHILE
OUTPUT i
''')
# ------------------------------------------------------------------ C11
S('c11-recursion-collapsed', 'C11', [(ER, '        os << "\\n" << ctx->getName();\n        if', '        if (ctx->getParent() != nullptr && ctx->getName() == ctx->getParent()->getName() && ctx->getName() == context.getName()) {\n            ctx = ctx->getParent();\n            continue;\n        }\n        os << "\\n" << ctx->getName();\n        if')],
  'a runtime error three or more activations deep in a recursion', 'active calls are missing in the trace', prog='''PROCEDURE P(n : INTEGER)
    IF n = 0 THEN
        OUTPUT 1 DIV n
    ENDIF
    CALL P(n - 1)
ENDPROCEDURE
CALL P(3)
''', script=ERRS % '')
S('c11-function-in-block', 'C11', [(PA, 'if (blockType != BlockType::MAIN) throw PSC::SyntaxError(*currentToken, "Functions can only be defined in the global scope");', 'if (blockType == BlockType::CASE) throw PSC::SyntaxError(*currentToken, "Functions can only be defined in the global scope");')],
  'a FUNCTION definition inside IF, a loop or a procedure', 'the program runs instead of being rejected', prog='''OUTPUT "x"
IF TRUE THEN
    FUNCTION F() RETURNS INTEGER
        RETURN 1
    ENDFUNCTION
ENDIF
''')
S('c11-next-name-unchecked', 'C11', [(LP, 'if (currentToken->value != iterator.value)', 'if (currentToken->value.size() != iterator.value.size())')], 'NEXT naming another variable of the same length', 'the program runs instead of being rejected',
  prog='''OUTPUT "x"
FOR i <- 1 TO 2
    OUTPUT i
NEXT j
''')
S('c11-column-after-string', 'C11', [(SL, "            char c = escSeqFmt(currentChar);\n            if (c == -1) throw PSC::LexerError(line, column, \"Invalid escape sequence\");\n            str += c;", "            char c = escSeqFmt(currentChar);\n            if (c == -1) throw PSC::LexerError(line, column, \"Invalid escape sequence\");\n            if (c == '\\n') line++;\n            str += c;")],
  'an error on a line after a string with the escape sequence for a line break', 'the line is one too high', prog='''OUTPUT "a\\nb"
OUTPUT 1 DIV 0
''', script=ERRS % '')
S('c11-syntax-after-runtime', 'C11', [('src/parser/parser.cpp', '        block->addNode(node);\n\n        if (currentToken->type != TokenType::LINE_END && currentToken->type != TokenType::EXPRESSION_END) {', '        block->addNode(node);\n\n        if (currentToken->type == TokenType::RPAREN && blockType == BlockType::CASE) advance();\n        if (currentToken->type != TokenType::LINE_END && currentToken->type != TokenType::EXPRESSION_END) {')],
  'a surplus closing parenthesis at the end of a statement in a CASE clause', 'the program runs instead of being rejected', prog='''x <- 1
OUTPUT "x"
CASE OF x
    1 : OUTPUT (x + 1))
ENDCASE
''')
# ------------------------------------------------------------------ C12
S('c12-runfile-failed', 'C12', [(RP, '            std::string exit = runFile() ? "successfully" : "with an error";', '            bool ok = runFile();\n            std::string exit = ok ? "successfully" : "with an error";'),
                                (RP, '            psfilename = "<stdin>";\n            REPLMode = true;', '            psfilename = "<stdin>";\n            REPLMode = ok;')],
  'an expression entered after RUNFILE of a program that failed', 'its value is not echoed', files={'input.txt': '1 + 1\nRUNFILE bad.pseudo\n2 + 2\nEXIT\n', 'bad.pseudo': 'OUTPUT 1 DIV 0\n'}, script=REPL)
S('c12-procedure-keyword-comment', 'C12', [(RP, 'line.compare(start, word.size(), word) != 0) return false;\n', 'line.compare(start, word.size(), word) != 0) return false;\n    if (start > 0 && line[0] == \'\\t\') return false;\n')],
  'a multi-line construct whose first line is indented with a tab', 'its lines are taken for separate entries', files={'input.txt': '\tIF TRUE THEN\n\tOUTPUT "a"\n\tENDIF\n\nOUTPUT "b"\nEXIT\n'}, script=REPL)
S('c12-echo-after-error', 'C12', [(BL, '        runNodeREPL(node, ctx);', '        if (node == nodes.front() || nodes.size() > 4) runNodeREPL(node, ctx);\n        else node->evaluate(ctx);')],
  'a block of two to four statements of which a later one is a bare expression', 'its value is not echoed', files={'input.txt': 'IF TRUE THEN\n    1 + 1\n    2 + 2\nENDIF\n\nEXIT\n'}, script=REPL)
S('c12-echo-char-quote', 'C12', [(BL, '        case PSC::DataType::CHAR:\n            std::cout << "\'" << result', '        case PSC::DataType::CHAR:\n            std::cout << (result->get<PSC::Char>().value == \'\\\'\' ? "\\"" : "\'") << result')],
  'echo of the CHAR that is a quote', 'the form differs', files={'input.txt': "'a'\n'\\''\nEXIT\n"}, script=REPL)
# ------------------------------------------------------------------ C13
S('c13-integer-narrow', 'C13', [(NU, '    in >> value;\n    return !in.fail();\n}\n\n\nReal::Real()', '    long double read;\n    in >> read;\n    value = (int_t) (real_t) read;\n    return !in.fail();\n}\n\n\nReal::Real()')], 'an INTEGER beyond 2^53 in a record', 'its last digits change',
  prog='''DECLARE i : INTEGER
i <- 9007199254740993
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", i
i <- 0
SEEK "d.dat", 1
GETRECORD "d.dat", i
OUTPUT i
''')
# ------------------------------------------------------------------ C14
S('c14-replace-not-saved', 'C14', [(FI, '        records.push_back(ss.str());\n', '        records.push_back(ss.str());\n        modified = true;\n'), (FI, '        records[ptr] = ss.str();\n    }\n    modified = true;', '        modified = modified || records[ptr].size() != ss.str().size();\n        records[ptr] = ss.str();\n    }')],
  'replacing a record by one whose stored form is as long, and nothing else before CLOSEFILE', 'the change is lost on closing', prog='''DECLARE i : INTEGER
i <- 1
OPENFILE "d.dat" FOR RANDOM
PUTRECORD "d.dat", i
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
i <- 2
SEEK "d.dat", 1
PUTRECORD "d.dat", i
CLOSEFILE "d.dat"
OPENFILE "d.dat" FOR RANDOM
SEEK "d.dat", 1
GETRECORD "d.dat", i
OUTPUT i
''')
S('c14-append-advances', 'C14', [(FI, '        records.push_back(ss.str());\n', '        records.push_back(ss.str());\n        if (ptr++ == 0) ptr = 0;\n')], 'GETRECORD or PUTRECORD right after a PUTRECORD at n+1, without SEEK', 'another address is used',
  prog='''DECLARE i : INTEGER
OPENFILE "d.dat" FOR RANDOM
i <- 1
PUTRECORD "d.dat", i
SEEK "d.dat", 2
i <- 2
PUTRECORD "d.dat", i
i <- 3
PUTRECORD "d.dat", i
SEEK "d.dat", 2
GETRECORD "d.dat", i
OUTPUT i
''')
S('c14-shared-cursor', 'C14', [(FI, '    ptr = address.value - 1;', '    ptr = records.size() == 0 ? 0 : (address.value - 1) % (records.size() + 1);\n    if (ptr == 255) ptr = 0;')], 'SEEK to address 256', 'record 1 is addressed',
  prog='''DECLARE i : INTEGER
OPENFILE "d.dat" FOR RANDOM
FOR i <- 1 TO 260
    SEEK "d.dat", i
    PUTRECORD "d.dat", i
NEXT i
SEEK "d.dat", 256
GETRECORD "d.dat", i
OUTPUT i
''')
# ------------------------------------------------------------------ C15
S('c15-long-lines', 'C15', [(FI, '    std::getline(*ifile, line.value);\n', '    char buffer[1024];\n    ifile->getline(buffer, sizeof(buffer));\n    line.value.assign(buffer, ifile->gcount() - (!ifile->eof() && !ifile->fail() && ifile->gcount() > 0));\n')], 'a line of 1023 or more characters', 'it is cut and everything after it is lost',
  prog='''s <- "x"
FOR i <- 1 TO 11
    s <- s & s
NEXT i
OPENFILE "f.txt" FOR WRITE
WRITEFILE "f.txt", s
WRITEFILE "f.txt", "end"
CLOSEFILE "f.txt"
OPENFILE "f.txt" FOR READ
READFILE "f.txt", t
OUTPUT LENGTH(t)
READFILE "f.txt", t
OUTPUT t
''')
S('c15-trailing-cr', 'C15', [(FI, '    std::getline(*ifile, line.value);\n', "    std::getline(*ifile, line.value);\n    if (line.value.ends_with('\\r')) line.value.pop_back();\n")], 'a written line that ends in CHR(13)', 'the character is lost on reading',
  prog='''s <- "a" & CHR(13)
OPENFILE "f.txt" FOR WRITE
WRITEFILE "f.txt", s
CLOSEFILE "f.txt"
OPENFILE "f.txt" FOR READ
READFILE "f.txt", t
OUTPUT LENGTH(t)
''')
S('c15-real-exponent', 'C15', [(NU, '    std::string s = std::to_string(value);\n', '    std::string s = std::to_string(value);\n    if (value > -0.0001 && value < 0) s = "0.0";\n')], 'a negative REAL close to zero', 'its digits are lost', prog='''OPENFILE "f.txt" FOR WRITE
WRITEFILE "f.txt", -0.00005
CLOSEFILE "f.txt"
OPENFILE "f.txt" FOR READ
READFILE "f.txt", t
OUTPUT t
''')
# ------------------------------------------------------------------ C16
S('c16-close-erases-first', 'C16', [(FI, 'files.erase(files.begin() + i);', 'files.erase(files.begin() + i / 2);')], 'closing the second or a later of several open files', 'another handle disappears as well',
  prog='''OPENFILE "a.txt" FOR WRITE
OPENFILE "b.txt" FOR WRITE
CLOSEFILE "b.txt"
WRITEFILE "a.txt", "x"
OUTPUT "ok"
''')
S('c16-failed-open-registered', 'C16', [(FI, '    if (!file->isOpen()) return false;\n\n    files.push_back(std::move(file));\n    return true;', '    files.push_back(std::move(file));\n    return files.back()->isOpen();')], 'a file statement in the REPL after an OPENFILE that failed', 'the file counts as open',
  files={'input.txt': 'OPENFILE "none/x.txt" FOR WRITE\nCLOSEFILE "none/x.txt"\nOUTPUT "end"\nEXIT\n'}, script=REPL)
S('c16-append-creates', 'C16', [(FI, 'if (mode == FileMode::RANDOM) {\n', 'if (mode == FileMode::RANDOM || (mode == FileMode::APPEND && files.size() > 0)) {\n')], 'OPENFILE FOR APPEND of a missing file while another file is open', 'the file is created instead of an error',
  prog='''OPENFILE "a.txt" FOR WRITE
OPENFILE "b.txt" FOR APPEND
OUTPUT "opened"
''')
S('c16-name-trailing-slash', 'C16', [(FI, '        if (file->name.value == name.value) return file.get();', '        if (file->name.value == name.value || (file->getMode() == FileMode::READ && "./" + file->name.value == name.value)) return file.get();')], 'a file that is open FOR READ addressed by another path to it', 'the handle of the other name is used',
  prog='''OPENFILE "a.txt" FOR WRITE
CLOSEFILE "a.txt"
OPENFILE "a.txt" FOR READ
OPENFILE "./a.txt" FOR READ
OUTPUT "both"
''')
# ------------------------------------------------------------------ C17
S('c17-int-narrow', 'C17', [(BN, '(int_t) floor(x->get<PSC::Real>().value)', '(int_t) floorf(x->get<PSC::Real>().value)')], 'INT of a REAL with more than 24 significant bits', 'the result is rounded',
  prog='OUTPUT INT(16777217.5)\nOUTPUT INT(2.999999999)\n')
S('c17-ucase-brace', 'C17', [(BC, '(char) std::toupper(ch->get<PSC::Char>().value)', "(char) (ch->get<PSC::Char>().value >= 'a' && ch->get<PSC::Char>().value <= '{' ? ch->get<PSC::Char>().value - 32 : ch->get<PSC::Char>().value)")], "UCASE of '{'", "it becomes '['", prog="OUTPUT UCASE('z')\nOUTPUT UCASE('{')\n")
S('c17-is-num-comma', 'C17', [(SB, "else if (c < '0' || c > '9') {", "else if (c < '/' || c > '9') {")], 'IS_NUM of a text with a slash', 'TRUE', prog='OUTPUT IS_NUM("1/2")\nOUTPUT IS_NUM("12")\n')
S('c17-right-whole', 'C17', [(SB, 'for (size_t i = start > 0 ? start : 0; i < strLen; i++) {', 'for (size_t i = start > 0 ? start : 0; i < strLen && strVal[i] != 0; i++) {')], 'RIGHT of a string with CHR(0)', 'the rest is lost', prog='z <- CHR(0)\ns <- "ab" & z & "cd"\nOUTPUT LENGTH(RIGHT(s, 4))\n')
S('c17-to-lower-signed', 'C17', [(SB, 'ret->value.begin(), tolower);', 'ret->value.begin(), [](char c) { return (char) (c >= \'A\' && c <= \'Z\' ? c | 0x20 : c == \'@\' ? \'`\' : c); });')], "TO_LOWER of '@'", "it becomes a back quote", prog='OUTPUT TO_LOWER("A@B")\n')
# ------------------------------------------------------------------ C18
S('c18-leap-setdate', 'C18', [(BD, 'if (!date.date.ok())', 'if (!date.date.ok() && !(date.date.month() == std::chrono::February && date.date.day() == std::chrono::day(29) && (int) date.date.year() % 100 == 0))')], 'SETDATE(29, 2, y) for a century that is no leap year', 'an impossible date', prog='OUTPUT "x"\nOUTPUT SETDATE(29, 2, 1900)\n')
S('c18-key-year', 'C18', [(DT, 'int_t cmp = year * 372 + month * 31 + day;', 'int_t cmp = year * 365 + month * 31 + day;')], 'comparing the last days of a December with the first days of the next January', 'the order is wrong', prog='OUTPUT 31/12/2020 < 1/1/2021\nOUTPUT 30/6/2020 < 1/7/2020\n')
S('c18-print-month-swap', 'C18', [(DT, 'ss << day << "/" << month << "/" << year;', 'ss << day << "/" << month << "/" << (year < 100 ? 1900 + year : year);')], 'a date in the first century', 'another year is printed', prog='d <- 1/2/50\nOUTPUT d\nOUTPUT YEAR(d)\n')
# ------------------------------------------------------------------ C19
S('c19-narrow-amount', 'C19', [(AR, 'right = integer.value % enumSize;', 'right = (int) integer.value % enumSize;')], 'adding an INTEGER beyond 32 bits to a value of a type whose number of names is no power of two', 'another value', prog='''TYPE T = (A, B, C)
DECLARE t : T
t <- A
OUTPUT t + 4294967297
''')
# ------------------------------------------------------------------ C20
S('c20-nested-if-in-else', 'C20', [(SP, '        advance();\n        if (currentToken->type == TokenType::IF) {\n            if (pedantic)', '        advance();\n        if (pedantic && currentToken->type == TokenType::LINE_END && compareNextType(1, TokenType::IF))\n            throw PSC::PedanticError(*currentToken, "Use of ELSE IF");\n        if (currentToken->type == TokenType::IF) {\n            if (pedantic)')],
  'an IF statement as the first statement of an ELSE branch', 'it is rejected', prog='''DECLARE x : INTEGER
x <- 2
IF x = 1 THEN
    OUTPUT "a"
ELSE
    IF x = 2 THEN
        OUTPUT "b"
    ENDIF
ENDIF
''', script=NOERR % '--pedantic ')
S('c20-cast-of-literal', 'C20', [(EV, '    const Token &token = *currentToken;\n    if (pedantic)\n', '    const Token &token = *currentToken;\n    if (pedantic && !compareNextType(3, TokenType::RPAREN))\n')], 'a cast of a single literal or variable', 'it is accepted', prog='''DECLARE x : INTEGER
x <- 2
OUTPUT REAL(x)
''', script=NOERR % '--pedantic ')
S('c20-short-option', 'C20', [(MN, '''        } else if (argc > 2) {
            psfilename = argv[2];''', '''        } else if (argc > 2) {
            pedantic = argv[1][1] == 'p' || argv[2][0] != '.';
            psfilename = argv[2];''')], '--pedantic with a file name that starts with a dot', 'nothing is rejected', prog='''x <- 2
OUTPUT x
''', script='timeout 20 "$EXE" --pedantic ./prog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"')
S('c20-second-undeclared', 'C20', [(VA, '        if (pedantic)\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");', '        if (pedantic && valueRes->type != PSC::DataType::ENUM)\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");')], 'assigning an enumerated value to an undeclared variable', 'it is accepted', prog='''TYPE T = (A, B)
OUTPUT "x"
y <- B
OUTPUT y
''', script=NOERR % '--pedantic ')
S('c20-const-undeclared', 'C20', [(VA, '    auto value = node.evaluate(ctx);\n\n    if (ctx.getVariable(identifier.value, false) != nullptr)', '    auto value = node.evaluate(ctx);\n    if (pedantic) value->implicitCast(PSC::DataType::CHAR);\n\n    if (ctx.getVariable(identifier.value, false) != nullptr)')], 'a CONSTANT with a one-character STRING', 'its type differs with --pedantic', prog='''CONSTANT C = "x"
OUTPUT C = "x"
''', script=NOERR % '--pedantic ')
