"""Independent recogniser of the documented grammar (grammar.txt, Syntax.md) over token spellings.

parse(toks) -> ('ok', None) | ('bad', token index) | ('unsure', token index).  'bad' means that no program of the language has these
tokens; the index is the first token (len(toks) for the end of input) that cannot continue a valid program.  Where the documents leave
the answer open, 'unsure'."""
from toks import T, tokenize

TYPES = {'INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE'}
ENDS = {'ENDIF', 'OTHERWISE', 'ENDCASE', 'ELSE', 'ENDWHILE', 'UNTIL', 'NEXT', 'ENDPROCEDURE', 'ENDFUNCTION'}
RES = set('''DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT INTEGER REAL BOOLEAN CHAR STRING DATE ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF
CASE OF OTHERWISE ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION
ENDFUNCTION RETURNS RETURN OUTPUT PRINT INPUT READ OPENFILE READFILE WRITEFILE CLOSEFILE WRITE APPEND RANDOM SEEK GETRECORD PUTRECORD'''.split())


class Bad(Exception):
    def __init__(self, i):
        self.i = i


class Unsure(Exception):
    def __init__(self, i):
        self.i = i


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0
        self.depth = 0

    @property
    def s(self):
        return self.t[self.i].s if self.i < len(self.t) else ''

    @property
    def k(self):
        if self.i >= len(self.t):
            return 'end'
        t = self.t[self.i]
        return 'id' if t.k == 'word' and t.s not in RES else t.k

    def at(self, *ss):
        # a string literal spelled like a keyword is no keyword: literals keep their quotes
        return self.s in ss

    def take(self, *ss):
        if self.s in ss and self.i < len(self.t):
            self.i += 1
            return True
        return False

    def need(self, *ss):
        if not self.take(*ss):
            raise Bad(self.i)

    def ident(self):
        if self.k != 'id':
            raise Bad(self.i)
        self.i += 1
        return self.t[self.i - 1].s

    def nls(self):
        n = 0
        while self.k == 'nl':
            self.i += 1
            n += 1
        return n

    # ---------------------------------------------------------------- expressions
    def expr(self):
        self.logic()
        while self.take('=', '<>'):
            self.logic()

    def logic(self):
        self.comp()
        while self.take('AND', 'OR'):
            self.comp()

    def comp(self):
        while self.take('NOT'):
            pass
        self.strx()
        while self.at('=', '<>', '<', '>', '<=', '>='):
            self.i += 1
            if self.at('NOT'):
                raise Unsure(self.i)      # a = NOT b is derivable at the level above
            self.strx()

    def strx(self):
        self.arith()
        while self.take('&'):
            self.arith()

    def arith(self):
        self.term()
        while self.take('+', '-'):
            self.term()

    def term(self):
        self.factor()
        while self.take('*', '/', 'DIV', 'MOD'):
            self.factor()

    def factor(self):
        self.take('-')
        self.atom()

    def atom(self):
        k = self.k
        if k in ('num', 'str', 'chr', 'date'):
            self.i += 1
        elif self.take('TRUE', 'FALSE'):
            pass
        elif k == 'id':
            if self.i + 1 < len(self.t) and self.t[self.i + 1].s == '(':
                self.i += 1
                self.args()
                return
            self.lvalue()
            if self.take('<-'):
                if self.take('^'):
                    self.lvalue()
                else:
                    self.expr()
        elif self.take('('):
            self.expr()
            self.need(')')
        elif self.s in TYPES:
            self.i += 1
            self.need('(')
            self.expr()
            self.need(')')
        elif self.at('MOD', 'DIV'):
            self.i += 1
            if not self.at('('):
                raise Bad(self.i - 1)
            self.i += 1
            self.expr()
            self.need(',')
            self.expr()
            self.need(')')
        else:
            raise Bad(self.i)

    def args(self):
        self.need('(')
        if self.take(')'):
            return
        self.expr()
        while self.take(','):
            self.expr()
        self.need(')')

    def lvalue(self):
        self.ident()
        while True:
            if self.take('.'):
                self.ident()
            elif self.take('^'):
                pass
            elif self.take('['):
                self.arith()
                while self.take(','):
                    self.arith()
                self.need(']')
            else:
                return

    # ---------------------------------------------------------------- statements
    def typename(self):
        if self.s in TYPES:
            self.i += 1
        else:
            self.ident()

    def declare(self):
        self.need('DECLARE')
        self.ident()
        while self.take(','):
            self.ident()
        self.need(':')
        if self.take('ARRAY'):
            self.need('[')
            while True:
                self.arith()
                self.need(':')
                self.arith()
                if not self.take(','):
                    break
            self.need(']')
            self.need('OF')
        self.typename()

    def literal(self):
        neg = self.take('-')
        if self.k in ('num', 'str', 'chr') or self.at('TRUE', 'FALSE'):
            if neg and self.k != 'num':
                raise Unsure(self.i)
            self.i += 1
        else:
            raise Bad(self.i)

    def params(self):
        if not self.take('('):
            return
        first = True
        pend = False
        while not self.at(')'):
            if not first:
                self.need(',')
            first = False
            self.take('BYREF', 'BYVAL')
            self.ident()
            if self.at(','):
                pend = True
                continue
            if not self.at(':'):
                raise Bad(self.i)
            self.i += 1
            self.typename()
            pend = False
        if pend:
            raise Bad(self.i)
        self.need(')')

    def statement(self, main):
        s = self.s if self.k != 'str' and self.k != 'chr' else ''
        if s == 'DECLARE':
            self.declare()
        elif s == 'CONSTANT':
            self.i += 1
            self.ident()
            self.need('=', '<-')
            self.literal()
        elif s == 'TYPE':
            self.i += 1
            self.nls()
            self.ident()
            if self.take('='):
                if self.take('^'):
                    self.typename()
                else:
                    self.need('(')
                    self.ident()
                    while self.take(','):
                        self.ident()
                    self.need(')')
            else:
                if self.k != 'nl':
                    raise Bad(self.i)
                self.nls()
                if not self.at('DECLARE'):
                    if self.at('ENDTYPE'):
                        raise Unsure(self.i)
                    raise Bad(self.i)
                while self.at('DECLARE'):
                    self.declare()
                    if self.k != 'nl':
                        raise Bad(self.i)
                    self.nls()
                self.need('ENDTYPE')
        elif s == 'IF':
            self.i += 1
            self.expr()
            self.nls()
            self.need('THEN')
            self.block()
            while self.take('ELSE'):
                if self.take('IF'):
                    self.expr()
                    self.nls()
                    self.need('THEN')
                    self.block()
                else:
                    self.block()
                    break
            self.need('ENDIF')
        elif s == 'CASE':
            self.i += 1
            self.need('OF')
            self.ident()
            self.nls()
            n = 0
            while not self.take('ENDCASE'):
                if self.take('OTHERWISE'):
                    self.need(':')
                    self.block(case=True)
                    self.need('ENDCASE')
                    return
                self.expr()
                if self.take('TO'):
                    self.expr()
                self.need(':')
                self.block(case=True)
                n += 1
            if n == 0:
                raise Unsure(self.i)
        elif s == 'WHILE':
            self.i += 1
            self.expr()
            self.nls()
            self.take('DO')
            self.block()
            self.need('ENDWHILE')
        elif s == 'REPEAT':
            self.i += 1
            self.block()
            self.need('UNTIL')
            self.expr()
        elif s == 'FOR':
            self.i += 1
            n = self.ident()
            self.need('<-')
            self.arith()
            self.need('TO')
            self.arith()
            if self.take('STEP'):
                self.arith()
            self.block()
            self.need('NEXT')
            if self.k == 'id':
                if self.s != n:
                    raise Bad(self.i)
                self.i += 1
        elif s == 'PROCEDURE':
            if not main:
                raise Bad(self.i)
            self.i += 1
            self.ident()
            self.params()
            self.block()
            self.need('ENDPROCEDURE')
        elif s == 'FUNCTION':
            if not main:
                raise Bad(self.i)
            self.i += 1
            self.ident()
            self.params()
            self.nls()
            self.need('RETURNS')
            self.typename()
            self.block()
            self.need('ENDFUNCTION')
        elif s == 'CALL':
            self.i += 1
            self.ident()
            if self.at('('):
                self.args()
        elif s == 'RETURN':
            self.i += 1
            self.expr()
        elif s in ('BREAK', 'CONTINUE'):
            self.i += 1
        elif s in ('OUTPUT', 'PRINT'):
            self.i += 1
            self.expr()
            while self.take(','):
                self.expr()
        elif s in ('INPUT', 'READ'):
            self.i += 1
            self.lvalue()
        elif s == 'OPENFILE':
            self.i += 1
            self.strx()
            self.need('FOR')
            self.need('READ', 'WRITE', 'APPEND', 'RANDOM')
        elif s in ('READFILE', 'GETRECORD', 'PUTRECORD'):
            self.i += 1
            self.strx()
            self.need(',')
            self.ident()
        elif s in ('WRITEFILE', 'SEEK'):
            self.i += 1
            self.strx()
            self.need(',')
            self.expr()
        elif s == 'CLOSEFILE':
            self.i += 1
            self.strx()
        else:
            self.expr()

    def block(self, main=False, case=False):
        self.depth += 1
        if self.depth > 60:
            raise Unsure(self.i)
        while True:
            self.nls()
            if self.k == 'end' or self.at(*ENDS):
                break
            if case and not self.at('DECLARE'):
                j = self.i
                while j < len(self.t) and self.t[j].k != 'nl' and not (j > self.i and self.t[j].s == ':'):
                    j += 1
                if j < len(self.t) and self.t[j].s == ':':
                    break
            self.statement(main)
            if self.k not in ('nl', 'end'):
                raise Bad(self.i)
        self.depth -= 1

    def program(self):
        self.block(main=True)
        if self.k != 'end':
            raise Bad(self.i)


def parse(toks):
    p = P(toks)
    try:
        p.program()
        return 'ok', None
    except Bad as e:
        return 'bad', e.i
    except Unsure as e:
        return 'unsure', e.i
    except RecursionError:
        return 'unsure', p.i


def parse_text(text):
    r = tokenize(text)
    if r is None:
        return 'lex', None, None
    v, i = parse(r[0])
    return v, i, r[0]
