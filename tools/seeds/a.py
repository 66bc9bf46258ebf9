V = 'src/psc/variable.cpp'; A = 'src/psc/array.cpp'; C = 'src/psc/scope/context.cpp'; R = 'src/nodes/variable/resolver.cpp'
U = 'src/psc/types/userType.cpp'; F = 'src/nodes/functions/function.cpp'; P = 'src/nodes/functions/procedure.cpp'

S('c06-stride-from-upper-bound', 'C06', [(A, '        prevSize *= dimensions[i].getSize();', '        prevSize *= dimensions[i].upperBound;')],
  'an array with two or more dimensions whose first lower bound is not 1',
  'elements of a two-dimensional array with bounds other than 1:n share storage (or lie outside it)',
  prog='''DECLARE A : ARRAY[0:3, 0:3] OF INTEGER
FOR i <- 0 TO 3
    FOR j <- 0 TO 3
        A[i, j] <- 10 * i + j
    NEXT j
NEXT i
FOR i <- 0 TO 3
    OUTPUT A[i, 0], " ", A[i, 1], " ", A[i, 2], " ", A[i, 3]
NEXT i
''')

S('c06-assign-compares-sizes', 'C06', [(A, '    return ad1.n == ad2.n && ad1.lowerBound == ad2.lowerBound && ad1.upperBound == ad2.upperBound;',
   '    return ad1.n == ad2.n && ad1.getSize() == ad2.getSize();')],
  'whole-array assignment between arrays of equal size but shifted bounds',
  'the assignment of arrays with different bounds is accepted instead of being a runtime error',
  prog='''DECLARE A : ARRAY[1:3] OF INTEGER
DECLARE B : ARRAY[0:2] OF INTEGER
A[1] <- 7
OUTPUT "before"
B <- A
OUTPUT B[0]
''')

S('c04-dynamic-scoping', 'C04', [(C, '    return getGlobalContext()->getVariable(varName);', '    return parent->getVariable(varName);')],
  'a procedure that reads a global while its caller has a local of the same name',
  'a name that is not local resolves to the locals of the calling activation instead of the global variable',
  prog='''DECLARE x : INTEGER
x <- 1
PROCEDURE Show
    OUTPUT "x = ", x
    x <- x + 100
ENDPROCEDURE
PROCEDURE Caller
    DECLARE x : INTEGER
    x <- 5
    CALL Show
    OUTPUT "own x = ", x
ENDPROCEDURE
CALL Caller
OUTPUT "global x = ", x
''')

S('c04-array-dynamic-scoping', 'C04', [(C, '    return getGlobalContext()->getArray(arrayName);', '    return parent->getArray(arrayName);')],
  'a procedure that uses a global array while its caller has a local array of the same name',
  'an array name that is not local resolves to the array of the calling activation',
  prog='''DECLARE a : ARRAY[1:2] OF INTEGER
a[1] <- 1
PROCEDURE Show
    OUTPUT "a[1] = ", a[1]
    a[1] <- a[1] + 100
ENDPROCEDURE
PROCEDURE Caller
    DECLARE a : ARRAY[1:2] OF INTEGER
    a[1] <- 5
    CALL Show
    OUTPUT "own a[1] = ", a[1]
ENDPROCEDURE
CALL Caller
OUTPUT "global a[1] = ", a[1]
''')

S('c09-reference-of-reference', 'C09', [(V, '    Variable *v = ref == nullptr ? this : ref;\n', '    Variable *v = this;\n')],
  'a pointer taken to a BYREF parameter that was itself passed on from another BYREF parameter, used after both calls returned',
  'the pointer keeps the address of the intermediate parameter, which is gone, instead of the variable itself',
  prog='''TYPE TIntPtr = ^INTEGER
DECLARE p : TIntPtr
DECLARE x : INTEGER
x <- 42
PROCEDURE Inner(BYREF b : INTEGER)
    p <- ^b
ENDPROCEDURE
PROCEDURE Outer(BYREF a : INTEGER)
    CALL Inner(a)
ENDPROCEDURE
PROCEDURE Fill(n : INTEGER)
    DECLARE q : INTEGER
    DECLARE r : INTEGER
    q <- n * 1000
    r <- q + 1
    IF n > 0 THEN
        CALL Fill(n - 1)
    ENDIF
ENDPROCEDURE
CALL Outer(x)
CALL Fill(5)
OUTPUT p^
p^ <- 43
OUTPUT x
TYPE TStrPtr = ^STRING
DECLARE sp : TStrPtr
DECLARE s : STRING
DECLARE others : ARRAY[1:50] OF STRING
s <- "a text that is long enough for the heap"
PROCEDURE InnerS(BYREF b : STRING)
    sp <- ^b
ENDPROCEDURE
PROCEDURE OuterS(BYREF a : STRING)
    CALL InnerS(a)
ENDPROCEDURE
CALL OuterS(s)
CALL Fill(9)
sp^ <- sp^ & "!"
OUTPUT s
''')

S('c09-field-of-nested-record', 'C09', [(U, '    while (varCtx->isCompositeCtx) {', '    if (varCtx->isCompositeCtx) {')],
  'a pointer to a field of a record inside a record',
  'the live pointer is reported as pointing to a deleted object',
  prog='''TYPE TInner
    DECLARE n : INTEGER
ENDTYPE
TYPE TOuter
    DECLARE inner : TInner
    DECLARE m : INTEGER
ENDTYPE
TYPE TIntPtr = ^INTEGER
DECLARE o : TOuter
DECLARE p : TIntPtr
p <- ^o.m
p^ <- 1
OUTPUT o.m
p <- ^o.inner.n
p^ <- 2
OUTPUT o.inner.n
''')

S('c07-member-falls-back-to-global', 'C07', [(U, '    PSC::Variable *var = ctx->getVariable(name, false);', '    PSC::Variable *var = ctx->getVariable(name);')],
  'access to an undeclared field whose name is that of a global variable',
  'r.x reads and writes the global variable x although the type declares no field x',
  prog='''TYPE TRec
    DECLARE a : INTEGER
ENDTYPE
DECLARE r : TRec
DECLARE total : INTEGER
total <- 5
OUTPUT r.a
OUTPUT r.total
''')

S('c08-byref-drops-const', 'C08', [(V, 'ref(v), type(v->type), isConstant(v->isConstant), parent(v->parent)', 'ref(v), type(v->type), isConstant(false), parent(v->parent)')],
  'a constant passed as BYREF argument to a procedure that assigns to the parameter',
  'the constant is changed through the parameter',
  prog='''CONSTANT Limit = 10
PROCEDURE Inc(BYREF n : INTEGER)
    n <- n + 1
ENDPROCEDURE
OUTPUT Limit
CALL Inc(Limit)
OUTPUT Limit
''')

S('c19-enum-nearest-definition', 'C19', [(C, '                ptr->idx = i;\n', '                ptr->idx = definition == enums.front() ? i : i % enums.front()->values.size();\n')],
  'a second enumerated type with more names than the first',
  'a name of the second type evaluates to a different value of it',
  prog='''TYPE TLight = (Red, Amber, Green)
TYPE TDay = (Mon, Tue, Wed, Thu, Fri)
DECLARE d : TDay
d <- Wed
OUTPUT d
d <- Fri
OUTPUT d
''')

S('c09-pointer-as-field-cached', 'C09', [(R, '    for (Node* node : indices) {\n        if (node->getToken().type != TokenType::INTEGER) {', '    for (Node* node : this->indices) {\n        if (node->getToken().type == TokenType::INTEGER) {')],
  'an element at a literal index of an array of pointers or records, dereferenced again after it was set to another target, in one scope',
  'the dereference goes through what the access path denoted the first time',
  prog='''TYPE TIntPtr = ^INTEGER
TYPE TNode
    DECLARE value : INTEGER
    DECLARE link : TIntPtr
ENDTYPE
TYPE TNodePtr = ^TNode
DECLARE nodes : ARRAY[1:3] OF TNode
DECLARE ptrs : ARRAY[1:3] OF TNodePtr
FOR i <- 1 TO 3
    nodes[i].value <- i * 11
NEXT i
FOR i <- 1 TO 3
    ptrs[1] <- ^nodes[i]
    OUTPUT ptrs[1]^.value
NEXT i
''')


S('c04-function-return-cast', 'C05', [(F, '    ctx.returnValue->implicitCast(ctx.returnType);\n', '    if (!(ctx.returnType == PSC::DataType::CHAR)) ctx.returnValue->implicitCast(ctx.returnType);\n')],
  'a function declared to return CHAR that returns a one-character STRING',
  'the documented conversion is rejected as an invalid return type',
  prog='''FUNCTION First(s : STRING) RETURNS CHAR
    RETURN LEFT(s, 1)
ENDFUNCTION
OUTPUT First("hello")
''')
