import witness
PRE = '''#include "swoc/Scalar.h"
using namespace swoc; struct TA; struct TB;
using A10 = Scalar<10, int, TA>; using A100 = Scalar<100, int, TA>; using A15 = Scalar<15, int, TA>; using B10 = Scalar<10, int, TB>; using A10L = Scalar<10, long, TA>;
#define BODY void wit(A10 a, A100 b, A15 c, B10 d, A10L e, int n) {
'''
rule = witness.rule('scalar-scale-safety', PRE,
    must=[(n, 'BODY ' + c + ' }') for n, c in [
        ('lossless assignment', 'a = b; a += b; a -= b; A10 x{b}; a.assign(b);'), ('rounded assignment', 'b = round_up(a); b = round_down(a); b += round_up(a); b -= round_down(a); c = round_up(a);'),
        ('mixed expressions', 'auto s = a + b; auto t = a - c; bool r = a < b && a <= c && a > b && a >= c && a == b; (void)r; int q = a / b; (void)q; a = a * 2; a = 2 * a; a = a / 2; a.plus(1); a.minus(1);'),
        ('counter conversion', 'e = a; A10L y{a}; int v = a; (void)v;')]],
    mustnot=[(n, 'BODY ' + x + ' }', 'BODY ' + y + ' }') for n, x, y in [
        ('construction to a coarser scale', 'A100 x{a};', 'A10 x{b};'), ('assignment to a coarser scale', 'b = a;', 'a = b;'), ('assign to a coarser scale', 'b.assign(a);', 'a.assign(b);'),
        ('addition to a coarser scale', 'b += a;', 'a += b;'), ('subtraction from a coarser scale', 'b -= a;', 'a -= b;'), ('assignment between unrelated scales', 'c = a;', 'c = round_up(a);'), ('construction between unrelated scales', 'A15 x{a};', 'A15 x{round_up(a)};'),
        ('assignment across tags', 'a = d;', 'a = a;'), ('construction across tags', 'A10 x = d;', 'A10 x = a;'), ('addition across tags', 'a += d;', 'a += a;'), ('comparison across tags', 'bool r = A10(1) == A10(1); swoc::operator==(a, d);', 'bool r = A10(1) == A10(1); swoc::operator==(a, a);'),
        ('assignment of a plain number', 'a = 5;', 'a = round_up(5);'), ('implicit construction from a plain number', 'A10 x = 5;', 'A10 x = A10(5);')]],
    what='scale and tag safety of Scalar is enforced by the compiler')
