FI = 'src/psc/file.cpp'; NF = 'src/nodes/io/file.cpp'; NU = 'src/psc/types/numeric.cpp'; CH = 'src/psc/types/character.cpp'; DA = 'src/psc/types/date.cpp'
AR = 'src/nodes/eval/arithmetic.cpp'; SB = 'src/psc/builtinFunctions/string.cpp'; DB = 'src/psc/builtinFunctions/date.cpp'; NB = 'src/psc/builtinFunctions/numeric.cpp'
CM = 'src/nodes/eval/comparison.cpp'; CA = 'src/nodes/selection/case.cpp'; FO = 'src/nodes/loop/for.cpp'; NR = 'src/nodes/nodeResult.cpp'; IO = 'src/nodes/io/io.cpp'

S('c13-real-16-digits', 'C13', [(NU, 'std::numeric_limits<real_t>::digits10+2', 'std::numeric_limits<real_t>::digits10+1')],
  'a REAL that needs 17 significant digits', 'such a value written to a random file is read back as a neighbouring value',
  prog='''DECLARE a : REAL
DECLARE b : REAL
OPENFILE "r.dat" FOR RANDOM
FOR i <- 1 TO 20
    a <- i / 3
    SEEK "r.dat", i
    PUTRECORD "r.dat", a
NEXT i
FOR i <- 1 TO 20
    a <- i / 3
    SEEK "r.dat", i
    GETRECORD "r.dat", b
    OUTPUT i, " ", a = b
NEXT i
CLOSEFILE "r.dat"
''')

S('c13-char-skips-blank', 'C13', [(CH, '    in.ignore(1); // whitespace\n    value = in.get();\n', '    in >> std::ws;\n    value = in.get();\n')],
  'a CHAR that is a blank, tab or similar', 'the blank is lost and the read fails or returns another character',
  prog='''TYPE TRec
    DECLARE c : CHAR
    DECLARE n : INTEGER
ENDTYPE
DECLARE a : TRec
DECLARE b : TRec
OPENFILE "r.dat" FOR RANDOM
a.c <- ' '
a.n <- 4
PUTRECORD "r.dat", a
a.c <- 'x'
SEEK "r.dat", 2
PUTRECORD "r.dat", a
SEEK "r.dat", 2
GETRECORD "r.dat", b
OUTPUT b.c, b.n
SEEK "r.dat", 1
GETRECORD "r.dat", b
OUTPUT b.c, b.n
CLOSEFILE "r.dat"
''')

S('c14-seek-past-end-allowed', 'C14', [(FI, '    if ((size_t) address.value > records.size() + 1) return false;', '    if ((size_t) address.value > records.size() + 1 && records.size() > 0) return false;')],
  'a SEEK past the first address of an empty random file', 'the address is accepted although the file has no records',
  prog='''OPENFILE "r.dat" FOR RANDOM
SEEK "r.dat", 1
OUTPUT "one is legal"
SEEK "r.dat", 3
OUTPUT "three is not"
''')


S('c15-real-strips-integer-zeros', 'C15', [(NU, "    s.erase(s.find_last_not_of('0') + 1);\n    if (s.back() == '.') s.erase(s.size() - 1);\n", "    s.erase(s.find_last_not_of(\"0.\") + 1);\n")],
  'a REAL with a whole value that ends in 0, written to a file', '100.0 is written as 1',
  prog='''OPENFILE "a.txt" FOR WRITE
WRITEFILE "a.txt", 2.5
WRITEFILE "a.txt", 100.0
WRITEFILE "a.txt", 30 / 1
CLOSEFILE "a.txt"
OPENFILE "a.txt" FOR READ
WHILE NOT EOF("a.txt")
    READFILE "a.txt", s
    OUTPUT s
ENDWHILE
CLOSEFILE "a.txt"
''')

S('c17-num-to-str-zeros', 'C17', [(NU, "    s.erase(s.find_last_not_of('0') + 1);\n    if (s.back() == '.') s.erase(s.size() - 1);\n", "    while (s.size() > 3 && s.back() == '0') s.pop_back();\n    if (s.back() == '.') s.pop_back();\n    if (s.find('.') != std::string::npos) while (s.back() == '0') s.pop_back();\n    if (s.size() > 8 && s.find('e') == std::string::npos && s.find('.') < s.size() - 6) s.pop_back();\n")],
  'a value with exactly six decimals and an integer part of two digits or more', 'NUM_TO_STR loses the sixth decimal',
  prog='''OUTPUT NUM_TO_STR(12.5)
OUTPUT NUM_TO_STR(3.141593)
OUTPUT NUM_TO_STR(12.345678)
OUTPUT NUM_TO_STR(100.0)
''')

S('c16-open-twice-other-mode', 'C16', [(NF, '    if (file != nullptr)\n        throw PSC::RuntimeError(token, ctx, "File \'" + filename.value + "\' is already open");', '    if (file != nullptr && file->getMode() == mode)\n        throw PSC::RuntimeError(token, ctx, "File \'" + filename.value + "\' is already open");')],
  'OPENFILE of an open file in a different mode', 'the file is opened a second time (and truncated) instead of being a runtime error',
  prog='''OPENFILE "a.txt" FOR WRITE
WRITEFILE "a.txt", "one"
CLOSEFILE "a.txt"
OPENFILE "a.txt" FOR READ
READFILE "a.txt", s
OUTPUT s
OPENFILE "a.txt" FOR WRITE
OUTPUT "opened twice"
''')

S('c16-read-from-append', 'C16', [(NF, "    if (file->getMode() != PSC::FileMode::READ)\n        throw", "    if (file->getMode() == PSC::FileMode::WRITE)\n        throw")],
  'READFILE on a file opened FOR APPEND', 'an empty string is read instead of a runtime error',
  prog='''DECLARE s : STRING
s <- "old"
OPENFILE "a.txt" FOR WRITE
WRITEFILE "a.txt", "one"
CLOSEFILE "a.txt"
OPENFILE "a.txt" FOR APPEND
OUTPUT "appending"
READFILE "a.txt", s
OUTPUT "read ", s
''')

S('c17-octal-numerals', 'C17', [(CH, '    int_t x = std::strtol(cStr, &end, 10);', '    int_t x = std::strtol(cStr, &end, 0);')],
  'a decimal numeral with a leading zero', 'INTEGER("010") is 8',
  prog='''OUTPUT INTEGER("10"), " ", INTEGER("0"), " ", INTEGER("010"), " ", INTEGER("0123"), " ", INTEGER("09")
''')

S('c05-input-octal', 'C05', [(IO, '            var->get<PSC::Integer>() = inputStr.toInteger()->value;', '            var->get<PSC::Integer>() = (PSC::int_t) inputStr.toReal()->value;')],
  'a typed line for an INTEGER variable that is a decimal fraction or longer than 15 digits', 'INPUT routes integers through floating point: large values are silently rounded',
  prog='''DECLARE n : INTEGER
INPUT n
OUTPUT n
INPUT n
OUTPUT n
''', inp='12\n9007199254740993\n')

S('c17-mid-length', 'C17', [(SB, "    if (static_cast<size_t>(yVal) > strLen - static_cast<size_t>(xVal))", "    if (static_cast<size_t>(yVal) > strLen)")],
  'MID whose range starts inside the string and ends outside it', 'a shorter substring is returned instead of a runtime error',
  prog='''OUTPUT MID("abcdef", 3, 4)
OUTPUT MID("abcdef", 3, 5)
''')

S('c17-int-negative-whole', 'C17', [(NB, '    auto ret = std::make_unique<PSC::Integer>((int_t) floor(x->get<PSC::Real>().value));', '    PSC::real_t value = x->get<PSC::Real>().value;\n    auto ret = std::make_unique<PSC::Integer>(value < 0 ? (int_t) value - 1 : (int_t) value);')],
  'INT of a negative REAL with a whole value', 'INT(-3.0) is -4',
  prog='''OUTPUT INT(-3.5), " ", INT(3.5), " ", INT(-0.5), " ", INT(-3.0), " ", INT(0.0)
''')

S('c18-date-key', 'C18', [(DA, '    int_t cmp = year * 372 + month * 31 + day;', '    int_t cmp = year * 366 + month * 31 + day;')],
  'two dates around the turn of a year', '31/12/2023 compares greater than 1/1/2024',
  prog='''DECLARE a : DATE
DECLARE b : DATE
a <- SETDATE(31, 12, 2023)
b <- SETDATE(1, 1, 2024)
OUTPUT a < b, " ", a > b, " ", a = b
a <- SETDATE(28, 2, 2023)
b <- SETDATE(1, 3, 2023)
OUTPUT a < b, " ", a > b, " ", a = b
''')

S('c18-dayindex-century', 'C18', [(DB, '    weekday weekday(date);\n    int_t day = weekday.c_encoding() + 1;\n', '    int_t y = static_cast<int>(date.year()), m = static_cast<unsigned int>(date.month()), d = static_cast<unsigned int>(date.day());\n    const int_t offsets[] = {0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4};\n    if (m < 3) y--;\n    int_t day = (y + y / 4 - 15 + offsets[m - 1] + d) % 7 + 1;\n')],
  'a date before 1/3/1900 or after 28/2/2100', 'DAYINDEX is off by one outside 1900..2100',
  prog='''OUTPUT DAYINDEX(SETDATE(1, 1, 2000)), DAYINDEX(SETDATE(29, 2, 2024)), DAYINDEX(SETDATE(28, 2, 2100)), DAYINDEX(SETDATE(4, 7, 1955))
OUTPUT DAYINDEX(SETDATE(1, 3, 2100)), DAYINDEX(SETDATE(4, 7, 1776)), DAYINDEX(SETDATE(31, 12, 1899))
''')

S('c19-modulo-order', 'C19', [(AR, '        res %= enumSize;\n        if (res < 0) res += enumSize;\n', '        if (res < 0) res += enumSize;\n        else res %= enumSize;\n'),
  (AR, '            left = integer.value % enumSize;\n            right = enumVal.idx;', '            left = integer.value;\n            right = enumVal.idx;')],
  'INTEGER + enumerated value with the integer written first and less than minus the number of names', 'the position is outside the declared names',
  prog='''TYPE TDay = (Mon, Tue, Wed, Thu, Fri)
DECLARE d : TDay
d <- -2 + Mon
OUTPUT d
d <- 7 + Mon
OUTPUT d
d <- -8 + Mon
OUTPUT d
''')

S('c02-div-through-double', 'C02', [(NU, "        int_t x = divisor == -1 ? (int_t) (0ul - (unsigned long) ((Integer*) this)->value) : ((Integer*) this)->value / divisor;\n        return std::make_unique<Integer>(x);\n    }\n    \n    else if (type == mergeType(false, true)) { // int, real\n        int_t x = (int_t) floor(((Integer*) this)->value / (Real&) other);",
   "        int_t x = divisor == -1 ? (int_t) (0ul - (unsigned long) ((Integer*) this)->value) : ((Integer*) this)->value / divisor;\n        return std::make_unique<Integer>(x);\n    }\n    \n    else if (type == mergeType(false, true)) { // int, real\n        int_t x = (int_t) (((Integer*) this)->value / (Real&) other);")],
  'INTEGER DIV REAL with a negative quotient that is not whole', 'the quotient is rounded toward zero, so a = (a DIV b) * b + a MOD b fails',
  prog='''OUTPUT 7 DIV 2.0, " ", -7 DIV 2.0, " ", -7.0 DIV 2, " ", 7 DIV -2.0
OUTPUT (-7 DIV 2.0) * 2.0 + (-7 MOD 2.0)
''')

S('c02-multiply-through-double', 'C02', [(NU, "        int_t x = ((Integer*) this)->value * (Integer&) other;", "        int_t x = (int_t) ((real_t) ((Integer*) this)->value * (Integer&) other);")],
  'a product of INTEGERs beyond 2^53', 'the product is rounded to a multiple of a power of two',
  prog='''OUTPUT 123456789 * 1000
OUTPUT 3037000499 * 3037000499
OUTPUT 94906267 * 94906267
''')

S('c02-compare-through-double', 'C02', [(NU, "        bool x = ((Integer*) this)->value <= (Integer&) other;", "        bool x = ((Integer*) this)->value <= ((Integer&) other).toReal()->value;")],
  '<= on INTEGERs that differ by less than the precision of REAL', 'large integers that differ compare as if they were equal',
  prog='''OUTPUT 5 <= 4, " ", 4 <= 5
OUTPUT 9007199254740993 <= 9007199254740992
''')

S('c03-case-upper-bound', 'C03', [(CA, '    return *(lower->get<PSC::Number>() <= testValue) && *(testValue <= upper->get<PSC::Number>());', '    if (upper->type == PSC::DataType::REAL) return *(lower->get<PSC::Number>() <= testValue) && *(testValue < upper->get<PSC::Number>());\n    return *(lower->get<PSC::Number>() <= testValue) && *(testValue <= upper->get<PSC::Number>());')],
  'a CASE range with a REAL upper bound and a value equal to it', 'the clause is not taken',
  prog='''DECLARE x : REAL
x <- 2.5
CASE OF x
    0.5 TO 1.5 : OUTPUT "low"
    1.6 TO 2.5 : OUTPUT "high"
    OTHERWISE : OUTPUT "none"
ENDCASE
x <- 2
CASE OF x
    1 TO 2 : OUTPUT "integers"
    OTHERWISE : OUTPUT "none"
ENDCASE
''')

S('c03-for-stop-reevaluated', 'C03', [(FO, '    PSC::int_t stopValue = stopRes->get<PSC::Integer>();\n', '    PSC::int_t stopValue = stopRes->get<PSC::Integer>();\n    const bool fixedStop = dynamic_cast<AccessNode*>(&stop) == nullptr;\n'),
  (FO, '        PSE_BUDGET_STEP(token, ctx);\n', '        PSE_BUDGET_STEP(token, ctx);\n        if (!fixedStop) stopValue = stop.evaluate(ctx)->get<PSC::Integer>();\n'),
  (FO, '#include "nodes/loop/for.h"', '#include "nodes/loop/for.h"\n#include "nodes/variable/variable.h"'),
  (FO, '    bool stepNegative = stepValue < 0;', '    const bool stepNegative = stepValue < 0;')],
  'a FOR loop whose stop value is a variable that the body changes', 'the stop value is read again before every iteration',
  prog='''DECLARE n : INTEGER
n <- 3
FOR i <- 1 TO n
    OUTPUT i
    IF n < 6 THEN
        n <- n + 1
    ENDIF
NEXT i
OUTPUT "after ", i
''')

S('c05-first-character', 'C05', [(NR, '        && ((const PSC::String*) data.get())->value.length() == 1\n', '        && ((const PSC::String*) data.get())->value.length() >= 1\n')],
  'a STRING of more than one character stored in a CHAR variable', 'the string is silently truncated to its first character',
  prog='''DECLARE c : CHAR
c <- "x"
OUTPUT c
c <- "yes"
OUTPUT c
''')

