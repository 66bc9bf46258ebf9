FI = 'src/psc/file.cpp'; NF = 'src/nodes/io/file.cpp'; SB = 'src/psc/builtinFunctions/string.cpp'; LX = 'src/lexer/lexer.cpp'; SL = 'src/lexer/symbolLexer.cpp'
PA = 'src/parser/parser.cpp'; SP = 'src/parser/selectionParser.cpp'; UT = 'src/parser/userType.cpp'; VA = 'src/nodes/variable/variable.cpp'; AY = 'src/psc/array.cpp'
FU = 'src/nodes/functions/function.cpp'; PR = 'src/nodes/functions/procedure.cpp'; RE = 'src/nodes/variable/resolver.cpp'; BL = 'src/psc/scope/block.cpp'
EV = 'src/parser/evalExprParser.cpp'; IO = 'src/nodes/io/io.cpp'; CX = 'src/psc/scope/context.cpp'; MN = 'src/main.cpp'; RP = 'src/launch/repl.cpp'; LP = 'src/parser/loopParser.cpp'
CM = 'src/nodes/eval/comparison.cpp'; FO = 'src/nodes/loop/for.cpp'; CA = 'src/nodes/selection/case.cpp'; TU = 'src/psc/types/userType.cpp'
REPL = 'timeout 20 "$EXE" < input.txt 2> err.txt; echo "[exit $?]"; grep -c "Error" err.txt'
ERRS = 'timeout 20 "$EXE" %sprog.pseudo < /dev/null 2> err.txt; echo "[exit $?]"; cat err.txt'

# ------------------------------------------------------------------ C01
S('c01-mid-empty-past-end', 'C01', [(SB, 'if (static_cast<size_t>(yVal) > strLen - static_cast<size_t>(xVal))', 'if (yVal > 0 && static_cast<size_t>(xVal) + static_cast<size_t>(yVal) > strLen)'),
                                    (SB, 'if (static_cast<size_t>(xVal) >= strLen)\n', 'if (yVal > 0 && static_cast<size_t>(xVal) >= strLen)\n'),
                                    (SB, '    int_t yVal = y->get<PSC::Integer>().value;\n', ''),
                                    (SB, "    int_t xVal = x->get<PSC::Integer>().value - 1;\n", "    int_t xVal = x->get<PSC::Integer>().value - 1;\n    int_t yVal = y->get<PSC::Integer>().value;\n")],
  'MID with length 0 and a start two or more past the end of the string', 'the uncaught std::out_of_range aborts the interpreter',
  prog='''OUTPUT MID("abc", 2, 2)
OUTPUT MID("abc", 6, 0)
''')
S('c01-array-assign-type-kind', 'C01', [(VA, 'if (arr->type != array->type)', 'if (arr->type.type != array->type.type)')],
  'assigning whole arrays whose elements are of two different enumerated, pointer or record types', 'the interpreter aborts instead of diagnosing the mismatch',
  prog='''TYPE Season = (Spring, Summer)
TYPE Colour = (Red, Green)
DECLARE a : ARRAY[1:2] OF Season
DECLARE b : ARRAY[1:2] OF Colour
OUTPUT "x"
a <- b
OUTPUT "y"
''')
S('c01-eof-of-append', 'C01', [(SB, 'if (file->getMode() != FileMode::READ)', 'if (file->getMode() == FileMode::WRITE || file->getMode() == FileMode::APPEND)')],
  'EOF on a file that is open FOR RANDOM', 'the interpreter aborts instead of diagnosing the misuse',
  prog='''OPENFILE "r.dat" FOR RANDOM
OUTPUT "open"
OUTPUT EOF("r.dat")
''')
S('c01-too-few-arguments', 'C01', [(FU, 'if (args.size() != nArgs)', 'if (args.size() > nArgs)')],
  'a call of a function with fewer arguments than parameters', 'a built-in function finds no parameter and aborts the interpreter',
  prog='''OUTPUT LENGTH("abc")
OUTPUT LEFT("abc")
''')
S('c01-function-return-kind', 'C01', [(FU, 'if (ctx.returnValue->type != ctx.returnType)', 'if (ctx.returnValue->type.type != ctx.returnType.type)'),
                                     (FU, 'return std::move(functionCtx->returnValue);', 'auto result = std::move(functionCtx->returnValue);\n    result->type = function->returnType;\n    return result;')],
  'a function that returns a value of another enumerated or record type than it declares', 'storing the result aborts the interpreter',
  prog='''TYPE Season = (Spring, Summer)
TYPE Colour = (Red, Green)
FUNCTION F() RETURNS Season
    RETURN Green
ENDFUNCTION
DECLARE s : Season
OUTPUT "x"
s <- F()
OUTPUT s
''')

# ------------------------------------------------------------------ C03
S('c03-case-real-range', 'C03', [(CA, 'if (value.type != PSC::DataType::INTEGER && value.type != PSC::DataType::REAL) return false;', 'if (value.type != PSC::DataType::INTEGER) return false;')],
  'CASE OF a REAL variable with a range label', 'the range never matches', prog='''DECLARE r : REAL
r <- 2.5
CASE OF r
    1 TO 2 : OUTPUT "low"
    2 TO 3 : OUTPUT "mid"
    OTHERWISE : OUTPUT "none"
ENDCASE
''')
S('c03-continue-in-repeat', 'C03', [('src/nodes/loop/repeatUntil.cpp', '        } catch (BreakErrSignal&) {\n            break;\n', '        } catch (BreakErrSignal&) {\n            return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);\n'),
                                    ('src/nodes/loop/for.cpp', '        } catch (BreakErrSignal&) {\n            break;\n', '        } catch (BreakErrSignal&) {\n            iteratorValue = stopValue;\n            break;\n')],
  'the iterator of a FOR loop read after the loop was left with BREAK', 'the iterator has the stop value', prog='''FOR i <- 1 TO 10
    IF i = 4 THEN
        BREAK
    ENDIF
NEXT i
OUTPUT i
''')

# ------------------------------------------------------------------ C06
S('c06-index-check-only-last', 'C06', [(RE, 'if (!arr->dimensions[i].isValidIndex(x))', 'if (!arr->dimensions[i].isValidIndex(x) && (i + 1 == indices.size() || x < arr->dimensions[i].lowerBound))')],
  'an index above the upper bound in a dimension other than the last', 'another element is read or written instead of an error',
  prog='''DECLARE a : ARRAY[1:2, 1:3] OF INTEGER
a[1, 2] <- 7
OUTPUT "before"
OUTPUT a[3, 1]
''')

# ------------------------------------------------------------------ C07
S('c07-copy-four-dimensions', 'C07', [(AY, '    for (size_t i = 0; i < size; i++) {\n        copy.emplace_back(source[i]);', '    if (size > 3) size = 3; // at most three dimensions\n    for (size_t i = 0; i < size; i++) {\n        copy.emplace_back(source[i]);')],
  'a copy of a record with an array field of four dimensions', 'the field of the copy has only three dimensions',
  prog='''TYPE T
    DECLARE a : ARRAY[1:2, 1:2, 1:2, 1:2] OF INTEGER
ENDTYPE
FUNCTION f(x : T) RETURNS INTEGER
    RETURN x.a[2, 1, 2, 1]
ENDFUNCTION
DECLARE r : T
r.a[2, 1, 2, 1] <- 5
OUTPUT f(r)
''')
S('c07-byval-in-function-shares', 'C07', [(CX, '    copyPtrVector(other.arrays, arrays, this);\n', '    for (auto &array : other.arrays) {\n        arrays.emplace_back(std::make_unique<Array>(array->name, array->type, array->dimensions));\n        arrays.back()->init(*this);\n        if (array->type.type != PSC::DataType::COMPOSITE) arrays.back()->copyData(*array);\n    }\n')],
  'a copy of a record with an array field whose elements are records', 'the elements of the copy have default values',
  prog='''TYPE P
    DECLARE x : INTEGER
ENDTYPE
TYPE T
    DECLARE a : ARRAY[1:2] OF P
ENDTYPE
PROCEDURE show(r : T)
    OUTPUT r.a[1].x, " ", r.a[2].x
ENDPROCEDURE
DECLARE r : T
r.a[2].x <- 5
CALL show(r)
''')
S('c07-field-found-in-procedure', 'C07', [(TU, 'PSC::Variable *var = ctx->getVariable(name, false);', 'PSC::Variable *var = ctx->getVariable(name);')],
  'access to a field that the type does not declare when a global variable has that name', 'the global variable is read or written',
  prog='''TYPE P
    DECLARE x : INTEGER
ENDTYPE
DECLARE y : INTEGER
DECLARE p : P
y <- 3
OUTPUT "before"
OUTPUT p.y
''')

# ------------------------------------------------------------------ C08
S('c08-for-iterator-in-procedure', 'C08', [(FO, 'if (iterator->isConstant)', 'if (iterator->isConstant && iterator->parent == &ctx)')],
  'a FOR loop in a procedure with a global constant as its iterator', 'the constant is changed',
  prog='''CONSTANT c = 5
PROCEDURE p()
    FOR c <- 1 TO 3
        OUTPUT c
    NEXT c
ENDPROCEDURE
OUTPUT c
CALL p()
OUTPUT c
''')
S('c08-getrecord-char', 'C08', [(IO, 'if (var->isConstant)', 'if (var->isConstant && var->type != PSC::DataType::CHAR)')],
  'INPUT into a constant of type CHAR', 'the constant is changed', inp='z\n',
  prog='''CONSTANT c = 'a'
OUTPUT c
INPUT c
OUTPUT c
''')

# ------------------------------------------------------------------ C10
S('c10-comment-after-number', 'C10', [(SL, "if (i == 1 || c != '/' || !isdigit(c = getNextChar(++i))) return;", "if (c != '/' || !isdigit(c = getNextChar(++i))) return;")],
  'a // comment directly after an integer literal, whose text starts with a digit', 'the number and the comment are taken for a date',
  prog='''DECLARE i : INTEGER
i <- 5//2 more than before
OUTPUT i
''')
S('c10-blank-line-in-type', 'C10', [(UT, '''            throw PSC::ExpectedTokenError(*currentToken, "newline");
        while (currentToken->type == TokenType::LINE_END) advance();''', '''            throw PSC::ExpectedTokenError(*currentToken, "newline");
        advance();''')],
  'a blank or comment line between the fields of a record type', 'a syntax error',
  prog='''TYPE P
    DECLARE x : INTEGER

    // the second field
    DECLARE y : INTEGER
ENDTYPE
DECLARE p : P
p.y <- 2
OUTPUT p.y
''')
S('c10-blank-line-after-case-of', 'C10', [(SP, '''    advance();

    while (currentToken->type == TokenType::LINE_END) advance();

    CaseNode *caseNode''', '''    advance();

    if (currentToken->type == TokenType::LINE_END) advance();

    CaseNode *caseNode''')],
  'a blank or comment line between CASE OF and the first label', 'a syntax error',
  prog='''DECLARE i : INTEGER
i <- 2
CASE OF i
    // labels
    1 : OUTPUT "one"
    2 : OUTPUT "two"
ENDCASE
''')
S('c10-tab-before-parenthesis', 'C10', [(LX, "(*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\\t'", "(*expr)[idx-1] != ' '")],
  'a tab between OUTPUT (or another I/O keyword) and a parenthesis', 'a syntax error',
  prog='''OUTPUT\t(1 + 2) * 3
''')
S('c10-carriage-return-in-comment', 'C10', [(LX, "_expr->erase(std::remove(_expr->begin(), _expr->end(), '\\r'), _expr->end());", "if (_expr->find(\"\\r\\n\") < _expr->find('\\n')) _expr->erase(std::remove(_expr->begin(), _expr->end(), '\\r'), _expr->end());")],
  'a source whose first line ends with LF and a later one with CRLF', 'a syntax error',
  prog='OUTPUT 1\nOUTPUT 2\r\nOUTPUT 3\r\n')
# ------------------------------------------------------------------ C11
S('c11-multiline-string-line', 'C11', [(SL, '''        } else {
            str += currentChar;
        }
        advance();
    }

    if (idx >= expr->size() || currentChar != '"')''', '''        } else {
            // copy everything up to the next quote or escape sequence at once
            size_t end = std::min(expr->find_first_of("\\"\\\\", idx), expr->size());
            str.append(*expr, idx, end - idx);
            column += end - idx - 1;
            idx = end - 1;
            currentChar = (*expr)[idx];
            if (currentChar == '\\n') currentChar = ' ';
        }
        advance();
    }

    if (idx >= expr->size() || currentChar != '"')''')],
  'a fault on a line after a string literal that spans several lines', 'the diagnostic names an earlier line',
  prog='''OUTPUT "one
two
three"
OUTPUT 1 / 0
''', script=ERRS % '')
S('c11-call-site-before-arguments', 'C11', [(FU, '''    PSC::Function *function = ctx.getFunction(functionName);

    if (function == nullptr)''', '''    PSC::Function *function = ctx.getFunction(functionName);
    ctx.switchToken = &token;

    if (function == nullptr)'''), (FU, '    ctx.switchToken = &token;\n    functionCtx->switchToken', '    functionCtx->switchToken')],
  'a runtime error in a function one of whose arguments was a function call', 'the call site has no line in the traceback',
  prog='''FUNCTION g(x : INTEGER) RETURNS INTEGER
    RETURN x
ENDFUNCTION
FUNCTION f(x : INTEGER) RETURNS INTEGER
    RETURN 1 DIV x
ENDFUNCTION
OUTPUT f(1)
OUTPUT f(g(0))
''', script=ERRS % '')
S('c11-index-error-token', 'C11', [(RE, '''        if (!arr->dimensions[i].isValidIndex(x))
            throw PSC::RuntimeError(index->getToken(), ctx, "Index out of bounds");''', '''        if (!arr->dimensions[i].isValidIndex(x))
            throw PSC::RuntimeError(resolver->getToken(), *ctx.getGlobalContext(), "Index out of bounds");'''),
   ('src/nodes/variable/resolver.h', '    bool getDynamic();', '    bool getDynamic();\n    const Token &getToken() const {return token;}')],
  'an index out of bounds inside a procedure', 'the traceback does not list the frames',
  prog='''DECLARE a : ARRAY[1:3] OF INTEGER
PROCEDURE p(i : INTEGER)
    a[i] <- 1
ENDPROCEDURE
CALL p(3)
CALL p(4)
''', script=ERRS % '')
S('c11-column-reset', 'C11', [('src/parser/parser.cpp', '''        block->addNode(node);

        if (currentToken->type != TokenType::LINE_END && currentToken->type != TokenType::EXPRESSION_END) {
            throw PSC::SyntaxError(*currentToken);
        }''', '''        block->addNode(node);

        if (currentToken->type != TokenType::LINE_END && currentToken->type != TokenType::EXPRESSION_END) {
            while (currentToken->type != TokenType::LINE_END && currentToken->type != TokenType::EXPRESSION_END) advance();
            advance();
            throw PSC::SyntaxError(*currentToken);
        }''')],
  'anything after a complete statement on its line', 'the diagnostic names the next line',
  prog='''OUTPUT 1
OUTPUT 2 3
OUTPUT 4
''', script=ERRS % '')

# ------------------------------------------------------------------ C12
S('c12-tokens-cleared', 'C12', [(LX, '''    size_t currentTokensIdx = tokens.size();
''', '''    tokens.clear();
    size_t currentTokensIdx = 0;
''')],
  'a procedure or function that is called by a later entry', 'its nodes refer to freed tokens',
  files={'input.txt': '''FUNCTION addUp(first : INTEGER, second : INTEGER) RETURNS INTEGER
    DECLARE total : INTEGER
    total <- first + second
    RETURN total
ENDFUNCTION

DECLARE someOtherName, yetAnotherName, aThirdName, aFourthName : INTEGER
OUTPUT "text", someOtherName, yetAnotherName, aThirdName, 1, 2, 3, 4, 5, 6, 7
OUTPUT addUp(2, 3)
'''}, script=REPL)
S('c12-echo-real-large', 'C12', [(BL, '''            double integerValue;
            if (std::modf(value, &integerValue) == 0.0) std::cout << ".0";
''', '''            if (value == (PSC::real_t) (PSC::int_t) value) std::cout << ".0";
''')],
  'a bare expression whose value is a whole REAL beyond the range of INTEGER', 'the echo has no .0',
  files={'input.txt': '''12.5 * 2
10000000000.0 * 10000000000.0
-10000000000.0 * 10000000000.0
'''}, script=REPL)
S('c12-declare-list-half', 'C12', [(VA, '''    auto value = node.evaluate(ctx);

    if (ctx.getVariable(identifier.value, false) != nullptr)
        throw PSC::RedeclarationError(token, ctx, identifier.value);

    ctx.addVariable(new PSC::Variable(identifier.value, value->type, true, &ctx, value->data.get()));
''', '''    auto value = node.evaluate(ctx);

    PSC::Variable *old = ctx.getVariable(identifier.value, false);
    if (old != nullptr) {
        *const_cast<bool*>(&old->isConstant) = true;
        throw PSC::RedeclarationError(token, ctx, identifier.value);
    }

    ctx.addVariable(new PSC::Variable(identifier.value, value->type, true, &ctx, value->data.get()));
''')],
  'a failing CONSTANT entry with the name of a variable', 'the variable has become constant',
  files={'input.txt': '''DECLARE x : INTEGER
x <- 1
CONSTANT x = 5
x <- 2
OUTPUT x
'''}, script=REPL)
S('c12-files-closed-on-error', 'C12', [(RP, '            e.print();\n', '            e.print();\n            if (dynamic_cast<const PSC::RuntimeError*>(&e) != nullptr) globalCtx->getFileManager().closeAll();\n')],
  'an entry that ends with a runtime error while a file is open', 'the file is closed', files={'input.txt': '''OPENFILE "a.txt" FOR WRITE
WRITEFILE "a.txt", 1
OUTPUT 1 DIV 0
WRITEFILE "a.txt", 2
CLOSEFILE "a.txt"
OPENFILE "a.txt" FOR READ
READFILE "a.txt", x
READFILE "a.txt", x
OUTPUT x
'''}, script=REPL)

# ------------------------------------------------------------------ C20
S('c20-undeclared-in-procedure', 'C20', [(VA, '        if (pedantic)\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");', '        if (pedantic && ctx.getParent() == nullptr)\n            throw PSC::PedanticError(token, "Assigning to undeclared variable");')],
  'an assignment to an undeclared variable in a procedure or function under --pedantic', 'the program is accepted',
  prog='''PROCEDURE p()
    x <- 1
    OUTPUT x
ENDPROCEDURE
CALL p()
''', script=ERRS % '--pedantic ')
S('c20-cast-to-string', 'C20', [(EV, '''    if (pedantic)
        throw PSC::PedanticError(token, "Use of type casting");
''', '''    if (pedantic && token.value != "STRING")
        throw PSC::PedanticError(token, "Use of type casting");
''')], 'STRING(value) under --pedantic', 'the program is accepted',
  prog='''OUTPUT "n = " & STRING(5)
''', script=ERRS % '--pedantic ')
S('c20-continue-in-comment-branch', 'C20', [(SL, '''        if (pedantic)
            throw PSC::PedanticError(*tokens[tokens.size()-1], "Use of CONTINUE statement");''', '''        if (pedantic && tokens.size() > 1 && tokens[tokens.size()-2]->type == TokenType::LINE_END)
            throw PSC::PedanticError(*tokens[tokens.size()-1], "Use of CONTINUE statement");''')],
  'CONTINUE on the line of a CASE label, THEN or ELSE under --pedantic', 'the program is accepted',
  prog='''FOR i <- 1 TO 3
    IF i = 2 THEN CONTINUE
    ENDIF
    OUTPUT i
NEXT i
''', script=ERRS % '--pedantic ')
S('c20-input-in-loop', 'C20', [(IO, 'if (pedantic) throw PSC::PedanticError(simpleSource->getToken(), "Reading input into undefined variable");\n', 'if (pedantic && ctx.getVariables().empty()) throw PSC::PedanticError(simpleSource->getToken(), "Reading input into undefined variable");\n')],
  'INPUT of an undeclared variable under --pedantic in a program with declarations', 'the program is accepted', inp='a\n',
  prog='''DECLARE x : INTEGER
OUTPUT x
INPUT y
OUTPUT y
''', script='timeout 20 "$EXE" -p prog.pseudo < input.txt 2> err.txt; echo "[exit $?]"; cat err.txt')
