// Conditions: what a predicate answers for rows, for batches and for statistics, and what the rewrites of a predicate
// (negation, splitting, picking and leaving out fields) keep of it.
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "kinds.h"
#include "mc/mc.h"
#include "paimon/common/predicate/literal_converter.h"
#include "paimon/common/predicate/predicate_filter.h"
#include "paimon/common/predicate/predicate_utils.h"
#include "paimon/common/predicate/predicate_validator.h"
#include "paimon/predicate/compound_predicate.h"
#include "paimon/predicate/leaf_predicate.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"

using namespace paimon;  // NOLINT
using kd::Cell;
using kd::Column;
using kd::Kind;
using kd::Kinds;
using kd::Lit;
using kd::Pool;
using kd::Val;

namespace {
template <typename T>
T Must(Result<T>&& r, const char* what) {
    if (!r.ok()) mc::Fail("status", "%s: %s", what, r.status().ToString().c_str());
    return std::move(r).value();
}

enum Op { EQ, NE, LT, LE, GT, GE, IN, NOT_IN, IS_NULL, NOT_NULL, BETWEEN, kOps };
const char* kOpNames[] = {"=", "<>", "<", "<=", ">", ">=", "in", "not in", "is null", "is not null", "between"};

struct Cond {
    Op op;
    std::vector<Cell> lits;
    bool NullLit() const {
        return std::find(lits.begin(), lits.end(), Cell()) != lits.end();
    }
    bool Holds(const Cell& c) const {
        if (op == IS_NULL) return !c;
        if (op == NOT_NULL) return c.has_value();
        if (!c) return false;
        bool in = std::find(lits.begin(), lits.end(), c) != lits.end();
        if (op == IN) return in;
        if (op == NOT_IN) return !in && !NullLit();
        if (op == BETWEEN) return lits[0] && lits[1] && !(*c < *lits[0]) && !(*lits[1] < *c);
        if (!lits[0]) return false;
        switch (op) {
            case EQ:
                return in;
            case NE:
                return !in;
            case LT:
                return *c < *lits[0];
            case LE:
                return !(*lits[0] < *c);
            case GT:
                return *lits[0] < *c;
            default:
                return !(*c < *lits[0]);
        }
    }
    std::string Text() const {
        std::string t = kOpNames[op];
        for (auto& l : lits) t += " " + kd::Text(l);
        return t;
    }
};
std::shared_ptr<Predicate> Make(const Kind& k, int idx, const std::string& name, const Cond& c) {
    std::vector<Literal> ls;
    for (auto& l : c.lits) ls.push_back(Lit(k, l));
    switch (c.op) {
        case EQ:
            return PredicateBuilder::Equal(idx, name, k.type, ls[0]);
        case NE:
            return PredicateBuilder::NotEqual(idx, name, k.type, ls[0]);
        case LT:
            return PredicateBuilder::LessThan(idx, name, k.type, ls[0]);
        case LE:
            return PredicateBuilder::LessOrEqual(idx, name, k.type, ls[0]);
        case GT:
            return PredicateBuilder::GreaterThan(idx, name, k.type, ls[0]);
        case GE:
            return PredicateBuilder::GreaterOrEqual(idx, name, k.type, ls[0]);
        case IN:
            return PredicateBuilder::In(idx, name, k.type, ls);
        case NOT_IN:
            return PredicateBuilder::NotIn(idx, name, k.type, ls);
        case IS_NULL:
            return PredicateBuilder::IsNull(idx, name, k.type);
        case NOT_NULL:
            return PredicateBuilder::IsNotNull(idx, name, k.type);
        default:
            return PredicateBuilder::Between(idx, name, k.type, ls[0], ls[1]);
    }
}
std::vector<Cond> Conds(const Kind& k, bool nulls) {
    std::vector<Cond> out{{IS_NULL, {}}, {NOT_NULL, {}}, {IN, {}}, {NOT_IN, {}}};
    std::vector<Cell> lits(k.near.begin(), k.near.end());
    if (nulls) lits.push_back(Cell());
    for (int op = EQ; op <= GE; op++) {
        for (auto& l : lits) out.push_back({static_cast<Op>(op), {l}});
    }
    for (auto op : {IN, NOT_IN, BETWEEN}) {
        for (auto& a : lits) {
            for (auto& b : lits) out.push_back({op, {a, b}});
        }
    }
    return out;
}

const PredicateFilter& Filter(const std::shared_ptr<Predicate>& p) {
    auto* f = dynamic_cast<PredicateFilter*>(p.get());
    MC_CHECK(f, "no-filter", "a built predicate cannot be evaluated: %s", p->ToString().c_str());
    return *f;
}

// A small table: columns of given kinds, with a first column nobody asks about.
struct Table {
    std::vector<const Kind*> kinds;
    std::vector<Column> cols;
    std::shared_ptr<arrow::Schema> schema;
    std::shared_ptr<arrow::StructArray> batch;
    size_t rows = 0;
    Table(std::vector<const Kind*> ks, std::vector<Column> cs) : kinds(std::move(ks)), cols(std::move(cs)) {
        std::vector<std::shared_ptr<arrow::Field>> fields;
        std::vector<std::shared_ptr<arrow::Array>> arrays;
        rows = cols[0].size();
        for (size_t i = 0; i < kinds.size(); i++) {
            fields.push_back(arrow::field("f" + std::to_string(i), kinds[i]->arrow));
            arrays.push_back(kd::Build(*kinds[i], cols[i]));
        }
        schema = arrow::schema(fields);
        batch = arrow::StructArray::Make(arrays, fields).ValueOrDie();
    }
    std::vector<Cell> RowCells(size_t r) const {
        std::vector<Cell> out;
        for (auto& c : cols) out.push_back(c[r]);
        return out;
    }
    std::vector<char> OnBatch(const std::shared_ptr<Predicate>& p) const {
        auto v = Must(Filter(p).Test(*batch), "evaluating on a batch");
        MC_CHECK(v.size() == rows, "batch-size", "%zu answers for %zu rows", v.size(), rows);
        return v;
    }
    bool OnRow(const std::shared_ptr<Predicate>& p, size_t r, bool binary) const {
        auto cells = RowCells(r);
        if (binary) {
            auto row = kd::Row(kinds, cells);
            return Must(Filter(p).Test(schema, row), "evaluating on a row");
        }
        auto row = kd::Generic(kinds, cells);
        return Must(Filter(p).Test(schema, *row), "evaluating on a row");
    }
    // unknown: bit 0 no bounds, bit 1 no count of nulls
    bool OnStats(const std::shared_ptr<Predicate>& p, int unknown) const {
        std::vector<Cell> lo, hi;
        BinaryArray counts;
        BinaryArrayWriter w(&counts, static_cast<int>(kinds.size()), 8, Pool().get());
        for (size_t i = 0; i < kinds.size(); i++) {
            Cell mn, mx;
            int64_t nulls = 0;
            for (auto& c : cols[i]) {
                if (!c) {
                    nulls++;
                    continue;
                }
                if (!mn || *c < *mn) mn = c;
                if (!mx || *mx < *c) mx = c;
            }
            if (unknown & 1) mn = mx = Cell();
            lo.push_back(mn);
            hi.push_back(mx);
            if (unknown & 2) {
                w.SetNullAt(static_cast<int>(i));
            } else {
                w.WriteLong(static_cast<int>(i), nulls);
            }
        }
        w.Complete();
        auto a = kd::Row(kinds, lo), b = kd::Row(kinds, hi);
        return Must(Filter(p).Test(schema, static_cast<int64_t>(rows), a, b, counts), "evaluating on statistics");
    }
};

std::string Show(const Column& c) {
    std::string t = "(";
    for (auto& x : c) t += (t.size() > 1 ? ", " : "") + kd::Text(x);
    return t + ")";
}
Column ChooseColumn(const Kind& k, int rows) {
    Column c;
    for (int i = 0; i < rows; i++) {
        int v = mc::Choose(static_cast<int>(k.values.size()) + 1);
        c.push_back(v == 0 ? Cell() : Cell(k.values[v - 1]));
    }
    return c;
}

MC_SCENARIO(leaf, mc::BOTH, 2,
            "16 column types, columns of 0-2 (3) cells over null and 2-4 values; every comparison, in, not in, null "
            "tests and between with all literals beside the values and null: on a batch, on generic and binary rows, "
            "and on statistics with known and unknown bounds and counts; negation") {
    const Kind& k = Kinds()[mc::Choose(static_cast<int>(Kinds().size()))];
    int rows = mc::Choose(mc::Thorough() ? 4 : 3);
    Column col = ChooseColumn(k, rows);
    Column other(rows, Cell(kd::N(7)));
    Table t({&Kinds()[3], &k}, {other, col});
    mc::Hash h;
    for (auto& c : Conds(k, true)) {
        auto p = Make(k, 1, "f1", c);
        auto what = [&] { return std::string(k.name) + " " + c.Text() + " on " + Show(col); };
        auto got = t.OnBatch(p);
        bool any = false;
        for (int r = 0; r < rows; r++) {
            bool want = c.Holds(col[r]);
            any |= want;
            MC_CHECK((got[r] != 0) == want, "batch-answer", "%s: the batch says %d for row %d", what().c_str(), got[r], r);
            for (bool binary : {false, true}) {
                MC_CHECK(t.OnRow(p, r, binary) == want, "row-answer", "%s: the %s row %d is answered wrongly",
                         what().c_str(), binary ? "binary" : "generic", r);
            }
            mc::TraceValidated();
        }
        auto neg = p->Negate();
        if (!c.NullLit()) {
            for (int unknown = 0; unknown < 4; unknown++) {
                if (any) {
                    MC_CHECK(t.OnStats(p, unknown), "statistics-hide", "%s: statistics (unknown %d) rule it out",
                             what().c_str(), unknown);
                } else {
                    (void)t.OnStats(p, unknown);
                }
            }
            // what statistics exist for: a file whose bounds exclude the condition is left out
            if (rows > 0 && !any && (c.op == LT || c.op == GT || c.op == LE || c.op == GE)) {
                MC_CHECK(!t.OnStats(p, 0), "statistics-useless", "%s: statistics keep it", what().c_str());
            }
            if (neg) {
                auto inv = t.OnBatch(neg);
                bool keep = false;
                for (int r = 0; r < rows; r++) {
                    bool want = c.op == IS_NULL || c.op == NOT_NULL ? !c.Holds(col[r]) : col[r] && !c.Holds(col[r]);
                    keep |= want;
                    MC_CHECK((inv[r] != 0) == want, "negation", "not (%s): the batch says %d for row %d", what().c_str(),
                             inv[r], r);
                    MC_CHECK(t.OnRow(neg, r, true) == want, "negation-row", "not (%s): row %d", what().c_str(), r);
                }
                for (int unknown = 0; unknown < 4; unknown++) {
                    MC_CHECK(!keep || t.OnStats(neg, unknown), "negation-statistics", "not (%s): ruled out (unknown %d)",
                             what().c_str(), unknown);
                }
                auto twice = neg->Negate();
                MC_CHECK(twice && *twice == *p, "negation-twice", "%s: negated twice is %s", what().c_str(),
                         twice ? twice->ToString().c_str() : "nothing");
            }
        }
        MC_CHECK(*p == *Make(k, 1, "f1", c), "equality", "%s differs from itself", what().c_str());
        MC_CHECK(!(*p == *Make(k, 0, "f1", c)) && !(*p == *Make(k, 1, "f2", c)), "equality",
                 "%s equals a condition on another field", what().c_str());
        if (any) mc::Nontrivial();
        h.U(any);
    }
    for (auto& c : col) h.S(kd::Text(c));
    h.S(k.name);
    mc::State(h.h);
    mc::Outcome("leaf");
}

// ---- trees --------------------------------------------------------------------------------------------------------
struct Tree {
    int op = 0;  // 0 leaf, 1 and, 2 or
    int col = 0;
    Cond cond{IS_NULL, {}};
    std::vector<Tree> kids;
    bool Holds(const std::vector<Cell>& row) const {
        if (op == 0) return cond.Holds(row[col]);
        for (auto& k : kids) {
            if (k.Holds(row) != (op == 1)) return op != 1;
        }
        return op == 1;
    }
    void Fields(std::set<std::string>* out) const {
        if (op == 0) out->insert("f" + std::to_string(col));
        for (auto& k : kids) k.Fields(out);
    }
    std::string Text() const {
        if (op == 0) return "f" + std::to_string(col) + " " + cond.Text();
        std::string t = "(";
        for (auto& k : kids) t += (t.size() > 1 ? (op == 1 ? " and " : " or ") : "") + k.Text();
        return t + ")";
    }
    std::shared_ptr<Predicate> Build(const std::vector<const Kind*>& kinds, const std::vector<int>& at) const {
        if (op == 0) return Make(*kinds[col], at[col], "f" + std::to_string(col), cond);
        std::vector<std::shared_ptr<Predicate>> ps;
        for (auto& k : kids) ps.push_back(k.Build(kinds, at));
        return Must(op == 1 ? PredicateBuilder::And(ps) : PredicateBuilder::Or(ps), "combining");
    }
};
// Leaves over three columns; the only literal of a column is its middle value.
Tree ChooseTree(const std::vector<const Kind*>& kinds, int depth, int width) {
    int what = mc::Choose(depth > 0 ? 3 : 1);
    Tree t;
    t.op = what;
    if (what == 0) {
        int leaf = mc::Choose(mc::Thorough() ? 9 : 5);
        t.col = leaf % 3;
        auto mid = Cell(kinds[t.col]->values[1]);
        if (leaf == 4 || leaf == 5 || leaf == 6) {
            t.cond = {NOT_IN, {mid}};
        } else if (leaf < 3) {
            t.cond = {LE, {mid}};
        } else {
            t.cond = {IS_NULL, {}};
        }
        return t;
    }
    int n = mc::ChooseRange(1, width);
    for (int i = 0; i < n; i++) t.kids.push_back(ChooseTree(kinds, depth - 1, 2));
    return t;
}

// All rows over null, the middle value and its neighbours in three columns of different types.
const Table& Cube() {
    static const Table* t = [] {
        std::vector<const Kind*> kinds{&Kinds()[3], &Kinds()[14], &Kinds()[10]};
        std::vector<Column> cols(3);
        for (int i = 0; i < 64; i++) {
            for (int c = 0; c < 3; c++) {
                int v = (i >> (2 * c)) & 3;
                cols[c].push_back(v == 0 ? Cell() : Cell(kinds[c]->values[v - 1]));
            }
        }
        return new Table(kinds, cols);
    }();
    return *t;
}
void CheckTree(const Tree& tree, int depth_rows) {
    const Table& cube = Cube();
    auto p = tree.Build(cube.kinds, {0, 1, 2});
    auto got = cube.OnBatch(p);
    std::string text = tree.Text();
    std::vector<bool> want;
    for (size_t r = 0; r < cube.rows; r++) {
        want.push_back(tree.Holds(cube.RowCells(r)));
        MC_CHECK((got[r] != 0) == want[r], "tree-batch", "%s: the batch says %d for row %zu %s", text.c_str(), got[r], r,
                 Show(cube.RowCells(r)).c_str());
        if (r % depth_rows == 0) {
            MC_CHECK(cube.OnRow(p, r, r % 2 == 0) == want[r], "tree-row", "%s: row %zu %s", text.c_str(), r,
                     Show(cube.RowCells(r)).c_str());
        }
    }
    mc::TraceValidated();
    // a file of any two rows
    for (size_t r = 0; r < cube.rows; r += depth_rows) {
        size_t r2 = (r * 7 + 13) % cube.rows;
        std::vector<Column> cols;
        for (auto& c : cube.cols) cols.push_back({c[r], c[r2]});
        Table t(cube.kinds, cols);
        if (want[r] || want[r2]) {
            for (int unknown = 0; unknown < 4; unknown++) {
                MC_CHECK(t.OnStats(p, unknown), "tree-statistics", "%s: statistics (unknown %d) of rows %s %s rule it out",
                         text.c_str(), unknown, Show(cube.RowCells(r)).c_str(), Show(cube.RowCells(r2)).c_str());
            }
        }
    }
    if (auto neg = p->Negate()) {
        auto inv = cube.OnBatch(neg);
        for (size_t r = 0; r < cube.rows; r++) {
            bool complete = true;  // without nulls the negation is the complement
            for (auto& c : cube.RowCells(r)) complete &= c.has_value();
            MC_CHECK(!complete || (inv[r] != 0) == !want[r], "tree-negation", "not %s: row %zu %s", text.c_str(), r,
                     Show(cube.RowCells(r)).c_str());
            MC_CHECK(!(inv[r] && want[r]), "tree-negation", "%s and its negation hold for row %zu", text.c_str(), r);
        }
    }
    // splitting
    auto parts = PredicateUtils::SplitAnd(p);
    std::vector<std::vector<char>> answers;
    for (auto& part : parts) {
        answers.push_back(cube.OnBatch(part));
        auto* c = dynamic_cast<CompoundPredicate*>(part.get());
        MC_CHECK(!c || c->GetFunction().GetType() != Function::Type::AND, "split-more", "%s: part %s is still an and",
                 text.c_str(), part->ToString().c_str());
    }
    for (size_t r = 0; r < cube.rows; r++) {
        bool all = true;
        for (auto& a : answers) all &= a[r] != 0;
        MC_CHECK(all == want[r], "split", "%s: its parts say %d for row %zu", text.c_str(), all, r);
    }
    // names
    std::set<std::string> names, expect;
    tree.Fields(&expect);
    MC_CHECK(PredicateUtils::GetAllNames(p, &names).ok() && names == expect, "names", "%s: wrong field names",
             text.c_str());
    for (int mask = 0; mask < 8; mask++) {
        std::set<std::string> some;
        std::map<std::string, int32_t> picked;
        std::vector<int> order;  // the picked columns, in reverse order
        for (int c = 2; c >= 0; c--) {
            if (!(mask >> c & 1)) continue;
            some.insert("f" + std::to_string(c));
            picked["f" + std::to_string(c)] = static_cast<int32_t>(order.size());
            order.push_back(c);
        }
        bool hit = false;
        for (auto& n : expect) hit |= some.count(n) > 0;
        MC_CHECK(Must(PredicateUtils::ContainAnyField(p, some), "contains") == hit, "contains",
                 "%s: wrong about fields %d", text.c_str(), mask);
        auto rest = Must(PredicateUtils::ExcludePredicateWithFields(p, some), "leaving out fields");
        if (rest) {
            std::set<std::string> left;
            (void)PredicateUtils::GetAllNames(rest, &left);
            for (auto& n : left) MC_CHECK(!some.count(n), "excluded-field", "%s without %d still asks %s", text.c_str(), mask, n.c_str());
            auto a = cube.OnBatch(rest);
            for (size_t r = 0; r < cube.rows; r++) {
                MC_CHECK(!want[r] || a[r], "excluded-hides", "%s without fields %d loses row %zu", text.c_str(), mask, r);
            }
        }
        MC_CHECK(hit || (rest && cube.OnBatch(rest) == got), "excluded-changed", "%s changed though no field is left out",
                 text.c_str());
        auto pick = Must(PredicateUtils::CreatePickedFieldFilter(p, picked), "picking fields");
        if (pick) {
            std::vector<const Kind*> kinds;
            std::vector<Column> cols;
            for (int c : order) {
                kinds.push_back(cube.kinds[c]);
                cols.push_back(cube.cols[c]);
            }
            MC_CHECK(!order.empty(), "picked-nothing", "%s: a filter over no fields", text.c_str());
            Table sub(kinds, cols);
            auto a = sub.OnBatch(pick);
            for (size_t r = 0; r < cube.rows; r++) {
                MC_CHECK(!want[r] || a[r], "picked-hides", "%s with only fields %d loses row %zu", text.c_str(), mask, r);
                if (mask == 7) MC_CHECK((a[r] != 0) == want[r], "picked-all", "%s moved: row %zu", text.c_str(), r);
            }
        }
        bool covered = std::includes(some.begin(), some.end(), expect.begin(), expect.end());
        MC_CHECK(pick || !covered, "picked-lost", "%s: dropped though all its fields are there", text.c_str());
    }
    mc::Hash h;
    h.S(text);
    mc::State(h.h);
    if (std::count(want.begin(), want.end(), true) % cube.rows) mc::Nontrivial();
    mc::Outcome(tree.op == 0 ? "leaf" : tree.op == 1 ? "and" : "or");
}

MC_SCENARIO(trees, mc::BOTH, 3,
            "and/or trees of depth 2 with up to 2 parts over 5 (9) leaves on 3 columns (at most, null, not in) on all 64 "
            "rows over null and 3 values per column, and on statistics of pairs of rows; negation, splitting, names, "
            "leaving out and picking every subset of the fields") {
    Tree tree = ChooseTree(Cube().kinds, 2, 2);
    CheckTree(tree, 8);
}

// ---- literals -----------------------------------------------------------------------------------------------------
MC_SCENARIO(literal_values, mc::BOTH, 2,
            "all triples of values of each of 16 types: order, equality, hash, copies and moves in 3 steps over 3 "
            "literals with owned and borrowed text, conversion from arrays, rows and text") {
    const Kind& k = Kinds()[mc::Choose(static_cast<int>(Kinds().size()))];
    int n = static_cast<int>(k.near.size());
    auto cell = [&] {
        int v = mc::Choose(n + 1);
        return v == n ? Cell() : Cell(k.near[v]);
    };
    Cell a = cell(), b = cell();
    Literal la = Lit(k, a, mc::ChooseBool()), lb = Lit(k, b);
    auto show = [&] { return std::string(k.name) + " " + kd::Text(a) + " " + kd::Text(b); };
    MC_CHECK((la == lb) == (a == b) && (la != lb) == !(a == b), "literal-equality", "%s", show().c_str());
    if (a == b) MC_CHECK(la.HashCode() == lb.HashCode(), "literal-hash", "%s", show().c_str());
    auto cmp = la.CompareTo(lb);
    if (a.has_value() != b.has_value()) {
        MC_CHECK(!cmp.ok(), "literal-compare-null", "%s", show().c_str());
    } else {
        int want = a == b ? 0 : *a < *b ? -1 : 1;
        int got = Must(std::move(cmp), "comparing");
        MC_CHECK((got > 0) - (got < 0) == want, "literal-compare", "%s: %d", show().c_str(), got);
    }
    MC_CHECK(la.GetType() == k.type && la.IsNull() == !a, "literal-kind", "%s", show().c_str());
    MC_CHECK(!a || kd::FromLit(k, la) == a, "literal-value", "%s", show().c_str());
    // copies and moves between three literals
    {
        std::vector<Literal> ls{la, lb, Lit(k, a)};
        std::vector<Cell> model{a, b, a};
        std::vector<bool> moved(3, false);
        for (int step = 0; step < 2; step++) {
            int from = mc::Choose(3), to = mc::Choose(3);
            bool move = mc::ChooseBool();
            if (moved[from]) mc::Prune();
            if (move) {
                ls[to] = std::move(ls[from]);
                model[to] = model[from];
                if (from != to) moved[from] = true;
            } else {
                ls[to] = ls[from];
                model[to] = model[from];
            }
            moved[to] = from == to ? moved[to] : false;
        }
        for (int i = 0; i < 3; i++) {
            if (moved[i]) continue;
            MC_CHECK(ls[i].IsNull() == !model[i] && (!model[i] || kd::FromLit(k, ls[i]) == model[i]), "literal-copy",
                     "%s: literal %d", show().c_str(), i);
            MC_CHECK(ls[i] == Lit(k, model[i]) && ls[i].HashCode() == Lit(k, model[i]).HashCode(), "literal-copy",
                     "%s: literal %d is not equal", show().c_str(), i);
        }
        std::vector<Literal> grown;
        for (int i = 0; i < 5; i++) grown.push_back(i % 2 ? la : lb);
        for (int i = 0; i < 5; i++) MC_CHECK(grown[i] == (i % 2 ? lb == la ? lb : la : lb), "literal-vector", "%s", show().c_str());
    }
    // from an array, owning and borrowing
    bool stored = !k.Time() || ((!a || a->n % k.Unit() == 0) && (!b || b->n % k.Unit() == 0));
    if (stored) {
        auto arr = kd::Build(k, {a, b, Cell(), a});
        auto own = Must(LiteralConverter::ConvertLiteralsFromArray(*arr, true), "converting an array");
        auto borrowed = Must(LiteralConverter::ConvertLiteralsFromArray(*arr, false), "converting an array");
        std::vector<Cell> want{a, b, Cell(), a};
        MC_CHECK(own.size() == 4 && borrowed.size() == 4, "literal-array", "%zu %zu", own.size(), borrowed.size());
        for (int i = 0; i < 4; i++) {
            MC_CHECK(borrowed[i] == Lit(k, want[i]), "literal-array", "%s: cell %d", show().c_str(), i);
        }
        arr.reset();
        for (int i = 0; i < 4; i++) {
            MC_CHECK(own[i] == Lit(k, want[i]), "literal-array", "%s: cell %d", show().c_str(), i);
        }
        auto schema = arrow::schema({arrow::field("f0", k.arrow), arrow::field("f1", k.arrow)});
        auto row = kd::Row({&k, &k}, {a, b});
        auto gen = kd::Generic({&k, &k}, {a, b});
        for (int i = 0; i < 2; i++) {
            for (const InternalRow* r : {static_cast<const InternalRow*>(&row), static_cast<const InternalRow*>(gen.get())}) {
                auto l = Must(LiteralConverter::ConvertLiteralsFromRow(schema, *r, i, k.type), "converting a row");
                MC_CHECK(l == Lit(k, i ? b : a) && l.GetType() == k.type, "literal-row", "%s: field %d", show().c_str(), i);
            }
        }
    }
    // text and back
    bool text = k.type != FieldType::TINYINT && k.type != FieldType::DATE && !k.Time() && !k.Decimal() &&
                k.type != FieldType::FLOAT && k.type != FieldType::DOUBLE;
    if (a && text) {
        auto back = Must(LiteralConverter::ConvertLiteralsFromString(k.type, la.ToString()), "converting text");
        MC_CHECK(back == la, "literal-text", "%s came back as %s", show().c_str(), back.ToString().c_str());
    }
    mc::TraceValidated();
    mc::Hash h;
    h.S(k.name);
    h.S(kd::Text(a));
    h.S(kd::Text(b));
    mc::State(h.h);
    if (!(a == b)) mc::Nontrivial();
    mc::Outcome(a == b ? "equal" : "different");
}

MC_SCENARIO(validate, mc::BOTH, 2,
            "a leaf alone or inside and/or: every pair of field type, literal type (or null) and schema type, right and "
            "wrong index and name: a predicate passes exactly if everything fits") {
    const auto& ks = Kinds();
    int n = static_cast<int>(ks.size());
    const Kind& field = ks[mc::Choose(n)];
    const Kind& lit = ks[mc::Choose(n)];
    const Kind& col = ks[mc::Choose(n)];
    bool null = mc::ChooseBool(), check_idx = mc::ChooseBool(), nested = mc::ChooseBool();
    int idx = mc::Choose(2);
    bool name_ok = mc::ChooseBool();
    int nlits = mc::Choose(3);
    std::vector<Literal> ls;
    for (int i = 0; i < nlits; i++) {
        ls.push_back(i + 1 < nlits ? Lit(field, field.values[0]) : null ? Literal(field.type) : Lit(lit, lit.values[0]));
    }
    auto p = PredicateBuilder::In(idx, name_ok ? "b" : "x", field.type, ls);
    if (nested) {
        auto good = PredicateBuilder::IsNull(0, "a", FieldType::INT);
        auto inner = Must(PredicateBuilder::Or({good, p}), "or");
        p = Must(PredicateBuilder::And({good, inner}), "and");
    }
    auto schema = arrow::schema({arrow::field("a", arrow::int32()), arrow::field("b", col.arrow)});
    bool lits_ok = nlits == 0 || (!null && lit.type == field.type);
    MC_CHECK(PredicateValidator::ValidatePredicateWithLiterals(p).ok() == lits_ok, "literals", "%s with %s literals %d",
             field.name, lit.name, nlits);
    bool schema_ok = name_ok && (!check_idx || idx == 1) && col.type == field.type;
    MC_CHECK(PredicateValidator::ValidatePredicateWithSchema(*schema, p, check_idx).ok() == schema_ok, "schema",
             "%s on a %s column, index %d, name ok %d", field.name, col.name, idx, name_ok);
    mc::Hash h;
    h.S(field.name);
    h.S(lit.name);
    h.S(col.name);
    h.U(null * 64 + check_idx * 32 + nested * 16 + idx * 8 + name_ok * 4 + nlits);
    mc::State(h.h);
    if (lits_ok && schema_ok) mc::Nontrivial();
    mc::Outcome(lits_ok && schema_ok ? "fits" : "refused");
}
}  // namespace
