"""Specification syntax trees (tagged tuples) -> the library's query objects."""
from postbound import TableReference, ColumnReference
from postbound.qal import (ColumnExpression, StaticValueExpression, MathExpression, FunctionExpression, CastExpression, CaseExpression, SubqueryExpression,
                           WindowExpression, MathOperator, LogicalOperator, BinaryPredicate, BetweenPredicate, InPredicate, UnaryPredicate,
                           CompoundPredicate, CompoundOperator, Select, BaseProjection, From, Where, GroupBy, Having, OrderBy, OrderByExpression,
                           DirectTableSource, SubqueryTableSource, ValuesTableSource, FunctionTableSource, JoinTableSource, JoinType,
                           CommonTableExpression, WithQuery, SetQuery, SetOperator, build_query)

MATH = {"+": MathOperator.Add, "-": MathOperator.Subtract, "*": MathOperator.Multiply, "/": MathOperator.Divide}
CMP = {"=": LogicalOperator.Equal, "<": LogicalOperator.Less, ">": LogicalOperator.Greater, "<>": LogicalOperator.NotEqual, ">=": LogicalOperator.GreaterEqual,
       "<=": LogicalOperator.LessEqual}
JOIN = {"inner": JoinType.InnerJoin, "left": JoinType.LeftJoin, "cross": JoinType.CrossJoin, "natural": JoinType.NaturalInnerJoin}


class Env:
    """tables: name -> TableReference"""

    def __init__(self, tables=None):
        self.tables = dict(tables or {})

    def tab(self, n):
        return self.tables.setdefault(n, TableReference(n))

    def cref(self, t, c):
        return ColumnReference(c, self.tab(t))

    def col(self, t, c):
        return ColumnExpression(self.cref(t, c))

    def sub(self, x):
        t = x[1]
        return build_query([Select([BaseProjection(FunctionExpression("max", [self.col(t, "x")]))]), From([DirectTableSource(self.tab(t))]),
                            Where(BinaryPredicate(LogicalOperator.Equal, self.col(t, "y"), self.expr(x[2])))])

    def expr(self, x):
        k, e = x[0], self.expr
        if k == "col": return self.col(x[1], x[2])
        if k == "num": return StaticValueExpression(x[1])
        if k == "bin": return MathExpression(MATH[x[1]], e(x[2]), e(x[3]))
        if k == "sum": return MathExpression(MathOperator.Add, e(x[1][0]), [e(y) for y in x[1][1:]])
        if k == "cast": return CastExpression(e(x[1]), "integer")
        if k == "fn": return FunctionExpression("coalesce", [e(y) for y in x[1]])
        if k == "case": return CaseExpression([(self.pred(x[1]), e(x[2]))], else_expr=e(x[3]) if x[3] else None)
        if k == "agg": return FunctionExpression("max", [e(x[1])], filter_where=self.pred(x[2]) if x[2] else None)
        if k == "win": return WindowExpression(FunctionExpression("max", [e(x[1])]), partitioning=[e(x[2])], ordering=OrderBy([OrderByExpression(e(x[3]))]))
        if k == "sub": return SubqueryExpression(self.sub(x))
        raise AssertionError(x)

    def pred(self, p):
        k, e = p[0], self.expr
        if k == "cmp": return BinaryPredicate(CMP[p[1]], e(p[2]), e(p[3]))
        if k == "btw": return BetweenPredicate(e(p[1]), (e(p[2]), e(p[3])))
        if k == "in": return InPredicate(e(p[1]), [e(y) for y in p[2]])
        if k == "insub": return InPredicate.subquery(e(p[1]), self.sub(p[2]))
        if k == "ex": return UnaryPredicate.exists(self.sub(p[1]))
        if k == "null": return BinaryPredicate(LogicalOperator.Is, e(p[1]), StaticValueExpression(None))
        if k == "not": return CompoundPredicate(CompoundOperator.Not, self.pred(p[1]))
        if k == "and": return CompoundPredicate(CompoundOperator.And, [self.pred(y) for y in p[1]])
        if k == "or": return CompoundPredicate(CompoundOperator.Or, [self.pred(y) for y in p[1]])
        raise AssertionError(p)


def flat(p):
    """set of conjuncts of a predicate that may be missing"""
    if p is None:
        return frozenset()
    if isinstance(p, CompoundPredicate) and p.operation == CompoundOperator.And:
        return frozenset().union(*(flat(c) for c in p.children))
    return frozenset([p])
