//! Statements: clients run transactions of INSERT, UPDATE, DELETE and queries through the executors.
use crate::locks::iso;
use crate::txn::{X_BEGIN, X_END};
use crate::util::*;
use crate::wal::bpm;
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::column::{Column, ColumnBuilder};
use ferrite::catalog::schema::Schema;
use ferrite::catalog::Catalog;
use ferrite::concurrency::transaction::TransactionState;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::wal_manager::WALManager;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::aggregate_expression::{AggregateExpression, AggregationType};
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::expressions::case_expression::CaseExpression;
use ferrite::sql::execution::expressions::cast_expression::CastExpression;
use ferrite::sql::execution::expressions::coalesce_expression::CoalesceExpression;
use ferrite::sql::execution::expressions::is_distinct_expression::IsDistinctExpression;
use ferrite::sql::execution::expressions::overlay_expression::OverlayExpression;
use ferrite::sql::execution::expressions::position_expression::PositionExpression;
use ferrite::sql::execution::expressions::regex_expression::{RegexExpression, RegexOperator};
use ferrite::sql::execution::expressions::string_expression::{StringExpression, StringExpressionType};
use ferrite::sql::execution::expressions::substring_expression::SubstringExpression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::in_expression::InExpression;
use ferrite::sql::execution::expressions::is_check_expression::{IsCheckExpression, IsCheckType};
use ferrite::sql::execution::expressions::like_expression::LikeExpression;
use ferrite::sql::execution::expressions::unary_op_expression::UnaryOpExpression;
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::aggregation_plan::AggregationPlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::distinct_plan::DistinctNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::hash_join_plan::HashJoinNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::limit_plan::LimitNode;
use ferrite::sql::execution::plans::nested_index_join_plan::NestedIndexJoinNode;
use ferrite::sql::execution::plans::nested_loop_join_plan::NestedLoopJoinNode;
use ferrite::sql::execution::plans::offset_plan::OffsetNode;
use ferrite::sql::execution::plans::projection_plan::ProjectionNode;
use ferrite::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
use ferrite::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
use ferrite::sql::execution::plans::topn_plan::TopNNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::execution::plans::values_plan::ValuesNode;
use ferrite::sql::execution::plans::window_plan::{WindowFunction, WindowFunctionType, WindowNode};
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use simcore::Plan;
use sqlparser::ast::{JoinConstraint, JoinOperator, UnaryOperator};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::time::Duration;

/// txn, kind, table, predicate, its two arguments, set, its argument, tag, number; res: values of the rows returned
pub const X_STMT: u64 = 97;
pub const NULLV: u64 = 1 << 60;
pub const BADV: u64 = (1 << 60) + 1;
// kinds
pub const K_INS: u64 = 0; // n rows at once
pub const K_INSV: u64 = 1; // n rows from a VALUES child
pub const K_INSSEL: u64 = 2; // the matching rows of table n
pub const K_UPD: u64 = 3;
pub const K_DEL: u64 = 4;
pub const K_SEL: u64 = 10;
pub const K_SORT: u64 = 11;
pub const K_LIMIT: u64 = 12; // the first n in order
pub const K_OFFSET: u64 = 13; // all but the first n in order
pub const K_TOPN: u64 = 14;
pub const K_AGG: u64 = 15;
pub const K_GROUP: u64 = 16;
pub const K_NLJ: u64 = 17; // with table n
pub const K_LEFT: u64 = 18;
pub const K_HASH: u64 = 19;
pub const K_DISTINCT: u64 = 20;
pub const K_PROJ: u64 = 21;
pub const K_RIGHT: u64 = 22;
pub const K_FULL: u64 = 23;
pub const K_CROSS: u64 = 24;
pub const K_TOPG: u64 = 25; // the first n of each group
pub const K_WIN: u64 = 26; // rows numbered within their group
pub const K_NIJ: u64 = 27;
pub const K_CNT: u64 = 28; // count(grp), avg(bal)
pub const K_GSORT: u64 = 29; // groups by their number of rows
pub const K_JAGG: u64 = 30; // groups of a join
// only as logical plans
pub const K_HAVING: u64 = 31; // groups of more than n rows
pub const K_JOIN2: u64 = 32; // on two columns, the condition above the join
pub const K_JOIN3: u64 = 33;
pub const K_RESORT: u64 = 34; // the first n in order, in another order
pub const K_PROJ2: u64 = 35;
pub const K_DERIVED: u64 = 36; // with two columns of table n, on their second
// both ways
pub const K_EXPR: u64 = 37; // values computed from each row
pub const K_AGGX: u64 = 38; // groups, of computed values
// only as physical plans
pub const K_THETA: u64 = 39; // join of rows of one group on a comparison
pub const K_TOPNULL: u64 = 40; // the last n by group
// both ways
pub const K_SORTG: u64 = 41; // by group, the last first
pub fn pairs(k: u64) -> bool {
    matches!(k, K_THETA | K_NLJ | K_LEFT | K_HASH | K_RIGHT | K_FULL | K_CROSS | K_NIJ | K_JAGG | K_JOIN2 | K_JOIN3 | K_DERIVED)
}

pub const COLS: usize = 4;
/// The first column is declared unique, for which the optimiser makes an index.
static UNIQ: AtomicBool = AtomicBool::new(false);
pub(crate) fn cols() -> Vec<Column> {
    let id = if UNIQ.load(Relaxed) { ColumnBuilder::new("id", TypeId::Integer).as_unique().build() } else { Column::new("id", TypeId::Integer) };
    vec![id, Column::new("grp", TypeId::Integer), Column::new("bal", TypeId::Integer), Column::new_varlen("pad", TypeId::VarChar, 3000)]
}
pub(crate) fn schema() -> Schema {
    Schema::new(cols())
}
pub(crate) fn tname(t: u64) -> String {
    format!("tab{t}")
}
/// What strings are filled with
static WIDE: AtomicBool = AtomicBool::new(false);
fn fill() -> &'static str {
    if WIDE.load(Relaxed) { "ü" } else { "x" }
}
fn pad(p: &Plan, tag: u64) -> String {
    let mut n = p.cfg_or("size", 20) as usize;
    if p.cfg("vs") != 0 {
        n = [5, 40, n, n, 2 * n, 500][(tag % 6) as usize];
    }
    format!("{tag:05}.{}", fill().repeat(n.div_ceil(fill().len())))
}
fn enc(p: &Plan, v: &Value) -> u64 {
    match v.get_val() {
        Val::Integer(x) => *x as i64 as u64,
        Val::BigInt(x) => *x as u64,
        Val::Decimal(x) => (x * 60.0).round() as i64 as u64,
        Val::Null => NULLV,
        Val::Boolean(x) => *x as u64,
        Val::VarLen(s) => s.split('.').next().and_then(|x| x.parse().ok()).filter(|t| pad(p, *t) == *s).unwrap_or(BADV),
        _ => BADV,
    }
}
type Ctx = Arc<TransactionContext>;
pub(crate) type Ex = Arc<Expression>;
struct Sh {
    f: TransactionManagerFactory,
    cat: Arc<RwLock<Catalog>>,
    b: Arc<BufferPoolManager>,
    h: tokio::runtime::Handle,
    oid: Vec<u64>,
    /// 1: commits and aborts run alone, and the faults spare them; 2: the faults spare everything else
    few: i64,
    gate: RwLock<()>,
}
pub(crate) fn col(side: usize, i: usize) -> Ex {
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(side, i, cols()[i % COLS].clone(), vec![])))
}
pub(crate) fn int(v: u64) -> Ex {
    Arc::new(Expression::Constant(ConstantExpression::new(Value::new(v as i32), Column::new("c", TypeId::Integer), vec![])))
}
fn null() -> Ex {
    Arc::new(Expression::Constant(ConstantExpression::new(Value::new(Val::Null), Column::new("c", TypeId::Integer), vec![])))
}
fn txt(s: &str) -> Ex {
    Arc::new(Expression::Constant(ConstantExpression::new(Value::new(s), Column::new_varlen("s", TypeId::VarChar, 3000), vec![])))
}
pub(crate) fn cmp(a: Ex, b: Ex, t: ComparisonType) -> Ex {
    Arc::new(Expression::Comparison(ComparisonExpression::new(a.clone(), b.clone(), t, vec![a, b])))
}
pub(crate) fn logic(a: Ex, b: Ex, t: LogicType) -> Ex {
    Arc::new(Expression::Logic(LogicExpression::new(a.clone(), b.clone(), t, vec![a, b])))
}
/// The condition; `holds` says the same.
pub(crate) fn pred(k: u64, a: u64, b: u64) -> Option<Ex> {
    use ComparisonType::*;
    Some(match k {
        1 => cmp(col(0, 0), int(a), Equal),
        2 => cmp(col(0, 1), int(a), Equal),
        3 => cmp(col(0, 2), int(a), LessThan),
        4 => logic(cmp(col(0, 0), int(a), GreaterThanOrEqual), cmp(col(0, 0), int(b), LessThan), LogicType::And),
        5 => logic(cmp(col(0, 1), int(a), Equal), cmp(col(0, 2), int(b), GreaterThan), LogicType::Or),
        6 => cmp(int(a), col(0, 1), NotEqual),
        7 => is(col(0, 1), IsCheckType::Null { negated: false }),
        8 => is(col(0, 1), IsCheckType::Null { negated: true }),
        9 => not(cmp(col(0, 1), int(a), Equal)),
        10 | 11 => {
            let l = [a, (a + 2) % 5];
            let list = ConstantExpression::new_vector(l.iter().map(|v| Value::new(*v as i32)).collect(), l.iter().map(|v| int(*v)).collect());
            Arc::new(Expression::In(InExpression::new_list(col(0, 1), Arc::new(Expression::Constant(list)), k == 11, yesno())))
        }
        // NOT BETWEEN, as the parser puts it
        12 => logic(cmp(col(0, 1), int(a), LessThan), cmp(col(0, 1), int(a + 1), GreaterThan), LogicType::Or),
        13 | 14 => is_like(col(0, 3), &like(a, b), k == 14),
        15 => cmp(case(None, vec![(cmp(col(0, 1), int(a), Equal), col(0, 2))], col(0, 0)), int(b), GreaterThan),
        16 => cmp(case(Some(col(0, 1)), vec![(int(a), int(1)), (int(a + 1), int(2))], int(0)), int(b % 3), Equal),
        17 => cmp(arith(ArithmeticOp::Subtract, col(0, 2), arith(ArithmeticOp::Multiply, col(0, 0), int(2))), int(b), LessThanOrEqual),
        18 => is(cmp(col(0, 1), int(a), Equal), IsCheckType::True { negated: true }),
        19 => is(cmp(col(0, 1), int(a), LessThanOrEqual), IsCheckType::False { negated: false }),
        20 => logic(cmp(col(0, 1), int(a), Equal), not(cmp(col(0, 2), int(b), LessThan)), LogicType::And),
        21 => logic(cmp(col(0, 0), int(a), NotEqual), logic(cmp(col(0, 1), int(b % 5), Equal), is(col(0, 1), IsCheckType::Null { negated: false }), LogicType::Or), LogicType::And),
        22 => not(logic(cmp(col(0, 1), int(a), Equal), cmp(col(0, 2), int(b), GreaterThan), LogicType::Or)),
        23 => not(logic(cmp(col(0, 1), int(a), GreaterThanOrEqual), cmp(col(0, 0), int(b), LessThan), LogicType::And)),
        24 => is(logic(cmp(col(0, 1), int(a), Equal), cmp(col(0, 2), int(b), GreaterThan), LogicType::And), IsCheckType::Unknown { negated: b % 2 == 1 }),
        25 => cmp(Arc::new(Expression::Cast(CastExpression::new(col(0, 1), TypeId::Decimal))), int(a), LessThanOrEqual),
        26 => cmp(Arc::new(Expression::Coalesce(CoalesceExpression::new(vec![col(0, 1), int(a)], cols()[1].clone()))), int(b % 5), Equal),
        27 | 28 => Arc::new(Expression::IsDistinct(IsDistinctExpression::new(col(0, 1), if b % 3 == 0 { null() } else { int(a) }, k == 28, yesno()))),
        29 => cmp(substr(col(0, 3), 5, 3), txt(&format!("{}.{}", a % 10, fill())), Equal),
        30 => cmp(substr(col(0, 3), [7, -1][(b % 2) as usize], 1), txt(fill()), Equal),
        31 => cmp(Arc::new(Expression::Position(PositionExpression::new(txt(&format!("{}.", a % 10)), col(0, 3)))), int(5), Equal),
        32 | 33 => is_like(maybe(cmp(col(0, 1), int(a), Equal), col(0, 3)), if k == 32 { "0%" } else { "9_%" }, k == 33),
        34 | 35 => {
            let (op, pat) = if k == 34 { (RegexOperator::SimilarTo, "0%") } else { (RegexOperator::NotSimilarTo, "9_%") };
            Arc::new(Expression::Regex(RegexExpression::new(maybe(cmp(col(0, 1), int(a), Equal), col(0, 3)), txt(pat), op, None, yesno())))
        }
        36 => is_like(overlay(col(0, 3), ".", 7), &format!("____{}..%", a % 10), false),
        37 => cmp(Arc::new(Expression::Position(PositionExpression::new(txt("##"), overlay(col(0, 3), "##", 8)))), int(8), Equal),
        38 => {
            let e = maybe(cmp(col(0, 1), int(a), Equal), col(0, 3));
            is_like(Arc::new(Expression::String(StringExpression::new(e.clone(), StringExpressionType::Lower, vec![e]))), "0%", false)
        }
        39 => cmp(half(col(0, 0)), int(a), LessThanOrEqual),
        40 => cmp(int(a), half(col(0, 0)), NotEqual),
        41 => Arc::new(Expression::Constant(ConstantExpression::new(Value::new(b % 2 == 0), yesno(), vec![]))),
        42 => {
            let list = ConstantExpression::new_vector(vec![Value::new(Val::Null), Value::new(a as i32)], vec![int(a), int(a)]);
            Arc::new(Expression::In(InExpression::new_list(col(0, 1), Arc::new(Expression::Constant(list)), b % 2 == 1, yesno())))
        }
        PREDN => cmp(arith(ArithmeticOp::Add, col(0, 1), int(a)), arith(ArithmeticOp::Subtract, col(0, 2), int(b)), GreaterThan),
        PREDZ => cmp(arith(ArithmeticOp::Divide, int(600), arith(ArithmeticOp::Subtract, col(0, 0), int(a))), int(b), GreaterThan),
        _ => return None,
    })
}
/// Two more have no value for some rows.
pub const PREDS: u64 = 42;
pub const PREDN: u64 = PREDS + 1;
pub const PREDZ: u64 = PREDS + 2;
pub fn undefined(k: u64, a: u64, row: &[u64]) -> bool {
    k == PREDN && row[1] == NULLV || k == PREDZ && row[0] == a
}
fn yesno() -> Column {
    Column::new("v", TypeId::Boolean)
}
fn is(e: Ex, t: IsCheckType) -> Ex {
    Arc::new(Expression::IsCheck(IsCheckExpression::new(e, t, yesno())))
}
fn not(e: Ex) -> Ex {
    Arc::new(Expression::UnaryOp(UnaryOpExpression::new(e, UnaryOperator::Not).unwrap()))
}
fn arith(o: ArithmeticOp, a: Ex, b: Ex) -> Ex {
    Arc::new(Expression::Arithmetic(ArithmeticExpression::new(o, vec![a, b])))
}
fn case(base: Option<Ex>, arms: Vec<(Ex, Ex)>, other: Ex) -> Ex {
    let (w, t) = arms.into_iter().unzip();
    Arc::new(Expression::Case(CaseExpression::new(base, w, t, Some(other)).unwrap()))
}
/// The tag's last digit
fn like(a: u64, b: u64) -> String {
    let x = fill();
    match b % 5 {
        // longer than any
        4 => "_".repeat(3500),
        0 => format!("____{}.%", a % 10),
        1 => format!("%{}.{x}%", a % 10),
        2 => format!("0%{}._%", a % 10),
        _ => format!("0%{}.%{x}", a % 10),
    }
}
fn is_like(e: Ex, pat: &str, no: bool) -> Ex {
    Arc::new(Expression::Like(LikeExpression::new(e, txt(pat), None, no, false, yesno())))
}
fn substr(e: Ex, from: i32, n: i32) -> Ex {
    let n = Arc::new(Expression::Constant(ConstantExpression::new(Value::new(n), Column::new("c", TypeId::Integer), vec![])));
    let from = Arc::new(Expression::Constant(ConstantExpression::new(Value::new(from), Column::new("c", TypeId::Integer), vec![])));
    Arc::new(Expression::Substring(SubstringExpression::new(e, from, Some(n))))
}
fn overlay(e: Ex, with: &str, from: u64) -> Ex {
    Arc::new(Expression::Overlay(OverlayExpression::new(e, txt(with), int(from), Some(int(1)), Column::new_varlen("s", TypeId::VarChar, 3000))))
}
fn half(e: Ex) -> Ex {
    let two = Arc::new(Expression::Constant(ConstantExpression::new(Value::new(2.0), Column::new("c", TypeId::Decimal), vec![])));
    arith(ArithmeticOp::Divide, Arc::new(Expression::Cast(CastExpression::new(e, TypeId::Decimal))), two)
}
/// e where c holds, else NULL
fn maybe(c: Ex, e: Ex) -> Ex {
    Arc::new(Expression::Case(CaseExpression::new(None, vec![c], vec![e], None).unwrap()))
}
pub fn holds(k: u64, a: u64, b: u64, row: &[u64]) -> bool {
    let (ua, a, b) = (a, a as i64, b as i64);
    let c = |i: usize| row[i] as i64;
    let (id, bal, tag) = (c(0), c(2), row[3]);
    // true, false or unknown
    let g = (row[1] != NULLV).then(|| c(1));
    let no = |x: Option<bool>| x.map(|x| !x);
    let and = |x: Option<bool>, y: Option<bool>| if x == Some(false) || y == Some(false) { Some(false) } else { x.and(y) };
    let or = |x: Option<bool>, y: Option<bool>| if x == Some(true) || y == Some(true) { Some(true) } else { x.and(y) };
    let eq = g.map(|g| g == a);
    let r = match k {
        1 => Some(id == a),
        2 => eq,
        3 => Some(bal < a),
        4 => Some(id >= a && id < b),
        5 => or(eq, Some(bal > b)),
        6 | 9 => no(eq),
        7 => Some(g.is_none()),
        8 => Some(g.is_some()),
        10 | 11 => g.map(|g| (g == a || g == (a + 2) % 5) == (k == 10)),
        12 => g.map(|g| g < a || g > a + 1),
        13 | 14 if b % 5 == 4 => Some(k == 14),
        13 | 14 => Some((tag % 10 == ua % 10) == (k == 13)),
        15 => Some(if eq == Some(true) { bal > b } else { id > b }),
        16 => Some(if eq == Some(true) { 1 } else if g == Some(a + 1) { 2 } else { 0 } == b % 3),
        17 => Some(bal - id * 2 <= b),
        18 => Some(eq != Some(true)),
        19 => Some(g.is_some_and(|g| g > a)),
        20 => and(eq, Some(bal >= b)),
        21 => Some(id != a && (g.is_none() || g == Some(b % 5))),
        22 => no(or(eq, Some(bal > b))),
        23 => no(and(g.map(|g| g >= a), Some(id < b))),
        24 => Some((g.is_none() && bal > b) == (b % 2 == 0)),
        25 => g.map(|g| g <= a),
        26 => Some(g.unwrap_or(a) == b % 5),
        27 | 28 => Some((g == (b % 3 != 0).then_some(a)) == (k == 28)),
        29 | 31 => Some(tag % 10 == ua % 10),
        32 | 33 => eq.and_then(|e| e.then_some(true)),
        34 | 35 | 38 => eq.and_then(|e| e.then_some(true)),
        36 => Some(tag % 10 == ua % 10),
        39 => Some(id <= 2 * a),
        40 => Some(id != 2 * a),
        41 => Some(b % 2 == 0),
        42 => Some(b % 2 == 0 && eq == Some(true)),
        PREDN => g.map(|g| g + a > bal - b),
        PREDZ => Some(id != a && 600 / (id - a) > b),
        _ => Some(true),
    };
    r == Some(true)
}
pub fn inserted(a: &[u64], j: u64) -> [u64; 4] {
    // a: the statement's arguments
    let g = if a[4] >= 10 && (a[4] + j) % 3 == 0 { NULLV } else { (a[4] + j) % 5 };
    [a[3] + j, g, a[5].wrapping_add(j), a[8]]
}
#[derive(Clone)]
pub struct S {
    pub kind: u64,
    pub t: u64,
    pub p: [u64; 3],
    pub set: [u64; 2],
    pub n: u64,
    /// 0: the physical plan is built directly; otherwise the optimiser's options and, times 16, a way to put the condition; from 128: join conditions the other way round
    pub opt: u64,
}
/// The rows of a VALUES list
pub(crate) fn rows(p: &Plan, s: &S, args: &[u64]) -> Vec<Vec<Ex>> {
    vals(p, s, args).into_iter().map(|r| r.into_iter().zip(cols()).map(|(v, c)| Arc::new(Expression::Constant(ConstantExpression::new(v, c, vec![])))).collect()).collect()
}
fn vals(p: &Plan, s: &S, args: &[u64]) -> Vec<Vec<Value>> {
    let num = |v: u64| if v == NULLV { Value::new(Val::Null) } else { Value::new(v as i32) };
    (0..s.n).map(|j| inserted(args, j)).map(|r| vec![Value::new(r[0] as i32), num(r[1]), Value::new(r[2] as i32), Value::new(pad(p, r[3]).as_str())]).collect()
}
/// The SET list
pub(crate) fn sets(p: &Plan, s: &S, args: &[u64]) -> Vec<Ex> {
    let (i, e): (usize, Ex) = match s.set[0] {
        1 => (2, int(s.set[1])),
        2 => (1, int(s.set[1] % 5)),
        _ => (2, Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Add, vec![col(0, 2), int(s.set[1])])))),
    };
    let t = txt(&pad(p, args[8]));
    let to = |i: usize, e: Ex| -> Ex { Arc::new(Expression::Assignment(AssignmentExpression::new(i, cols()[i].clone(), e))) };
    let plus = || -> Ex { Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Add, vec![col(0, 2), col(0, 0)]))) };
    match s.set[0] {
        3 => vec![col(0, i), e, col(0, 3), t],
        // both take their values from the row as it was
        4 => vec![to(0, int(s.set[1])), to(2, plus()), to(3, t)],
        5 => vec![col(0, 0), int(s.set[1]), col(0, 2), plus(), col(0, 3), t],
        _ => vec![to(i, e), to(3, t)],
    }
}
/// id - 2 bal, a case, a condition, -id
pub(crate) fn computed() -> (Vec<Ex>, Schema) {
    let sub = arith(ArithmeticOp::Subtract, col(0, 0), arith(ArithmeticOp::Multiply, int(2), col(0, 2)));
    let case = case(None, vec![(cmp(col(0, 1), int(1), ComparisonType::LessThanOrEqual), col(0, 2)), (cmp(col(0, 0), int(5), ComparisonType::LessThan), int(7))], col(0, 0));
    let yes = is(cmp(col(0, 1), int(2), ComparisonType::Equal), IsCheckType::True { negated: false });
    let neg = Arc::new(Expression::UnaryOp(UnaryOpExpression::new(col(0, 0), UnaryOperator::Minus).unwrap()));
    let sc = ["a", "b", "c", "d"].into_iter().enumerate().map(|(i, n)| Column::new(n, if i == 2 { TypeId::Boolean } else { TypeId::Integer })).collect();
    (vec![sub, case, yes, neg], Schema::new(sc))
}
/// sum(bal - id), min(id - bal), max(case), count of a case without else
pub(crate) fn aggx() -> Vec<Ex> {
    use AggregationType::*;
    let agg = |t, e: Ex, n: &str| Arc::new(Expression::Aggregate(AggregateExpression::new(t, vec![e], cols()[2].clone(), n.into())));
    let small = cmp(col(0, 0), int(4), ComparisonType::LessThan);
    vec![
        agg(Sum, arith(ArithmeticOp::Subtract, col(0, 2), col(0, 0)), "SUM"),
        agg(Min, arith(ArithmeticOp::Subtract, col(0, 0), col(0, 2)), "MIN"),
        agg(Max, case(None, vec![(small.clone(), col(0, 2))], col(0, 0)), "MAX"),
        agg(Count, Arc::new(Expression::Case(CaseExpression::new(None, vec![small], vec![int(1)], None).unwrap())), "COUNT"),
    ]
}
pub(crate) fn aggs() -> Vec<Ex> {
    use AggregationType::*;
    vec![(CountStar, "COUNT"), (Sum, "SUM"), (Min, "MIN"), (Max, "MAX")]
        .into_iter()
        .map(|(t, n)| Arc::new(Expression::Aggregate(AggregateExpression::new(t, vec![col(0, 2)], cols()[2].clone(), n.into()))))
        .collect()
}
impl Sh {
    fn begin(&self, c: u32, lv: u64) -> Ctx {
        let id = (1 << 40) + next_id();
        inv(c, id, X_BEGIN, &[lv]);
        let x = self.f.begin_transaction(iso(lv));
        ret(c, id, OK, &[x.get_transaction_id(), x.get_transaction().read_ts()]);
        x
    }
    fn end(&self, c: u32, x: &Ctx, commit: bool) {
        let id = (1 << 40) + next_id();
        inv(c, id, X_END, &[x.get_transaction_id(), commit as u64]);
        let t = x.get_transaction();
        let _g = (self.few > 0).then(|| {
            let g = self.gate.write();
            simcore::faults(self.few == 2 && c < 90);
            g
        });
        if commit {
            let ok = self.h.block_on(self.f.commit_transaction(x.clone()));
            let done = t.get_state() == TransactionState::Committed;
            ret(c, id, OK, &[done as u64, t.commit_ts(), ok as u64]);
        } else {
            self.f.abort_transaction(x.clone());
            ret(c, id, OK, &[0, 0, 0]);
        }
        if self.few > 0 {
            simcore::faults(self.few == 1);
        }
    }
    fn scan(&self, t: u64, p: &[u64; 3]) -> PlanNode {
        let s = PlanNode::SeqScan(SeqScanPlanNode::new(schema(), self.oid[t as usize], tname(t)));
        match pred(p[0], p[1], p[2]) {
            Some(e) => PlanNode::Filter(FilterNode::new(schema(), self.oid[t as usize], tname(t), e, vec![s])),
            None => s,
        }
    }
    fn plan(&self, p: &Plan, s: &S, args: &[u64]) -> PlanNode {
        let (oid, name) = (self.oid[s.t as usize], tname(s.t));
        let order = vec![OrderBySpec::new(col(0, 2), OrderDirection::Desc), OrderBySpec::new(col(0, 0), OrderDirection::Asc)];
        let sort = |c| PlanNode::Sort(SortNode::new(schema(), order.clone(), vec![c]));
        let src = || self.scan(s.t, &s.p);
        match s.kind {
            K_INS => PlanNode::Insert(InsertNode::new(schema(), oid, name, vals(p, s, args), vec![])),
            K_INSV => PlanNode::Insert(InsertNode::new(schema(), oid, name, vec![], vec![PlanNode::Values(ValuesNode::new(schema(), rows(p, s, args), vec![]))])),
            K_INSSEL => PlanNode::Insert(InsertNode::new(schema(), oid, name, vec![], vec![self.scan(s.n, &s.p)])),
            K_UPD => PlanNode::Update(UpdateNode::new(schema(), name, oid, sets(p, s, args), vec![src()])),
            K_DEL => PlanNode::Delete(DeleteNode::new(schema(), name, oid, vec![src()])),
            K_SORT => sort(src()),
            K_LIMIT => PlanNode::Limit(LimitNode::new(s.n as usize, schema(), vec![sort(src())])),
            K_OFFSET => PlanNode::Offset(OffsetNode::new(s.n as usize, schema(), vec![sort(src())])),
            K_TOPN => PlanNode::TopN(TopNNode::new(schema(), vec![col(0, 2), col(0, 0)], s.n as usize, vec![src()])),
            K_TOPNULL => PlanNode::TopN(TopNNode::new(schema(), vec![col(0, 1), col(0, 0)], s.n as usize, vec![src()])),
            K_SORTG => PlanNode::Sort(SortNode::new(schema(), [(1, OrderDirection::Desc), (0, OrderDirection::Asc)].into_iter().map(|(i, d)| OrderBySpec::new(col(0, i), d)).collect(), vec![src()])),
            K_AGG => PlanNode::Aggregation(AggregationPlanNode::new(vec![src()], vec![], aggs())),
            K_GROUP => PlanNode::Aggregation(AggregationPlanNode::new(vec![src()], vec![col(0, 1)], aggs())),
            K_AGGX => PlanNode::Aggregation(AggregationPlanNode::new(vec![src()], vec![col(0, 1)], aggx())),
            K_EXPR => {
                let (e, sc) = computed();
                PlanNode::Projection(ProjectionNode::new(sc, e, vec![]).with_children(vec![src()]))
            }
            K_NLJ | K_LEFT | K_RIGHT | K_FULL | K_CROSS | K_NIJ | K_THETA => {
                let on = cmp(col(0, 1), col(1, COLS + 1), ComparisonType::Equal);
                let on = if s.kind == K_THETA { logic(on, cmp(col(0, 0), col(1, COLS), ComparisonType::LessThan), LogicType::And) } else { on };
                let j = match s.kind {
                    K_LEFT => JoinOperator::LeftOuter(JoinConstraint::None),
                    K_RIGHT => JoinOperator::RightOuter(JoinConstraint::None),
                    K_FULL => JoinOperator::FullOuter(JoinConstraint::None),
                    K_CROSS => JoinOperator::CrossJoin(JoinConstraint::None),
                    _ => JoinOperator::Inner(JoinConstraint::None),
                };
                let (l, r, ch) = (vec![col(0, 1)], vec![col(1, 1)], vec![src(), self.scan(s.n, &[0; 3])]);
                if s.kind == K_NIJ {
                    PlanNode::NestedIndexJoin(NestedIndexJoinNode::new(schema(), schema(), on, j, l, r, ch))
                } else {
                    PlanNode::NestedLoopJoin(NestedLoopJoinNode::new(schema(), schema(), on, j, l, r, ch))
                }
            }
            K_TOPG => PlanNode::TopNPerGroup(TopNPerGroupNode::new(s.n as usize, vec![col(0, 2), col(0, 0)], vec![col(0, 1)], schema(), vec![src()])),
            K_WIN => {
                let mut c = cols();
                c.push(Column::new("n", TypeId::Integer));
                let w = WindowFunction::new(WindowFunctionType::RowNumber, col(0, 0), vec![col(0, 1)], vec![col(0, 2), col(0, 0)]);
                PlanNode::Window(WindowNode::new(Schema::new(c), vec![w], vec![src()]))
            }
            K_CNT => {
                use AggregationType::*;
                let agg = |t, i: usize, n: &str, ty| Arc::new(Expression::Aggregate(AggregateExpression::new(t, vec![col(0, i)], Column::new("v", ty), n.into())));
                PlanNode::Aggregation(AggregationPlanNode::new(vec![src()], vec![], vec![agg(Count, 1, "COUNT", TypeId::BigInt), agg(Avg, 2, "AVG", TypeId::Decimal)]))
            }
            K_GSORT => {
                let g = AggregationPlanNode::new(vec![src()], vec![col(0, 1)], aggs());
                let sc = g.get_output_schema().clone();
                let by = |i: usize| Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, i, sc.get_columns()[i].clone(), vec![])));
                let o = vec![OrderBySpec::new(by(1), OrderDirection::Desc), OrderBySpec::new(by(0), OrderDirection::Asc)];
                PlanNode::Sort(SortNode::new(sc.clone(), o, vec![PlanNode::Aggregation(g)]))
            }
            K_HASH | K_JAGG => {
                let on = cmp(col(0, 1), col(1, COLS + 1), ComparisonType::Equal);
                let j = PlanNode::HashJoin(HashJoinNode::new(schema(), schema(), on, JoinOperator::Inner(JoinConstraint::None), vec![col(0, 1)], vec![col(0, 1)], vec![src(), self.scan(s.n, &[0; 3])]));
                if s.kind == K_HASH { j } else { PlanNode::Aggregation(AggregationPlanNode::new(vec![j], vec![col(0, 1)], aggs())) }
            }
            K_DISTINCT | K_PROJ => {
                let c = if s.kind == K_DISTINCT { vec![1] } else { vec![2, 0] };
                let sc = Schema::new(c.iter().map(|i| cols()[*i].clone()).collect());
                let pr = PlanNode::Projection(ProjectionNode::new(sc.clone(), c.iter().map(|i| col(0, *i)).collect(), c.clone()).with_children(vec![src()]));
                if s.kind == K_PROJ { pr } else { PlanNode::Distinct(DistinctNode::new(sc).with_children(vec![pr])) }
            }
            _ => src(),
        }
    }
    /// false: the statement failed, as the transaction must now
    fn stmt(&self, p: &Plan, c: u32, x: &Ctx, s: &S) -> bool {
        let id = (1 << 40) + next_id();
        let tag = id - (1 << 40) + 1;
        let args = [x.get_transaction_id(), s.kind, s.t, s.p[0], s.p[1], s.p[2], s.set[0], s.set[1], tag, s.n, s.opt];
        // for inserts the predicate's slots hold the first row
        inv(c, id, X_STMT, &args);
        let _g = (self.few > 0).then(|| self.gate.read());
        let ctx = Arc::new(RwLock::new(ExecutionContext::new(self.b.clone(), self.cat.clone(), x.clone())));
        let plan = match s.opt {
            0 => Ok(self.plan(p, s, &args)),
            _ => crate::plan::planned(p, &self.cat, &self.oid, s, &args).unwrap_or_else(|| Ok(self.plan(p, s, &args))),
        };
        let r = plan.and_then(|x| x.create_executor(ctx)).and_then(|mut e| {
            e.init();
            let mut out = vec![];
            let mut n = 0;
            while let Some((t, _)) = e.next().map_err(|e| format!("{e:?}"))? {
                out.extend(t.get_values().iter().map(|v| enc(p, v)));
                n += 1;
                if n > 20_000 {
                    return Err("endless".into());
                }
            }
            Ok(out)
        });
        match r {
            Ok(v) => {
                ret(c, id, OK, &v);
                true
            }
            Err(e) => {
                simcore::log(&format!("statement {}: {e}", s.kind));
                ret(c, id, ERR, &[]);
                false
            }
        }
    }
}
fn client(p: &'static Plan, c: u32, s: &Sh) {
    let mut cur: Option<(Ctx, u64)> = None;
    let nt = s.oid.len() as u64;
    for (_, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        match o.k.as_str() {
            "s" => std::thread::sleep(Duration::from_micros(a(0))),
            "b" => {
                if let Some((x, _)) = cur.take() {
                    s.end(c, &x, true);
                }
                cur = Some((s.begin(c, a(0)), a(0)));
            }
            "c" | "a" => {
                if let Some((x, _)) = cur.take() {
                    s.end(c, &x, o.k == "c");
                }
            }
            "gc" => s.f.get_transaction_manager().garbage_collection(),
            _ => {
                let Some((x, _)) = cur.clone() else { continue };
                let join = a(0) == K_INSSEL || pairs(a(0));
                let st = S { kind: a(0), t: a(1) % nt, p: [a(2), a(3), a(4)], set: [a(5), a(6)], n: if join { a(7) % nt } else { a(7) }, opt: a(8) };
                if !s.stmt(p, c, &x, &st) {
                    s.end(c, &x, false);
                    cur = None;
                }
            }
        }
    }
    if let Some((x, _)) = cur.take() {
        s.end(c, &x, true);
    }
}
pub fn run(p: &'static Plan, _phase: u32) {
    UNIQ.store(p.cfg("uniq") != 0, Relaxed);
    WIDE.store(p.cfg_or("wide", 0) != 0, Relaxed);
    let rt = runtime(p);
    rt.block_on(async move {
        let m = open_disk(p).await;
        let b = bpm(p.cfg_or("frames", 10) as usize, 2, m.clone());
        let f = if p.cfg("wal") != 0 {
            let lm = Arc::new(RwLock::new(LogManager::new(m.clone())));
            lm.write().run_flush_thread();
            TransactionManagerFactory::with_wal_manager(b.clone(), Arc::new(WALManager::new(lm)))
        } else {
            TransactionManagerFactory::new(b.clone())
        };
        let f1 = f.get_transaction_manager();
        let b1 = b.clone();
        let h = tokio::runtime::Handle::current();
        let s = offload(move || {
            let mut cat = Catalog::new(b1.clone(), f1);
            let mut oid = vec![];
            for t in 0..p.cfg_or("tables", 2) as u64 {
                match cat.create_table(tname(t), schema()) {
                    Some(i) => oid.push(i.get_table_oidt()),
                    None => simcore::sched::finish(simcore::shm::OUT_HARNESS, "harness", "no table"),
                }
            }
            let s = Arc::new(Sh { f, cat: Arc::new(RwLock::new(cat)), b: b1, h, oid, few: p.cfg("few"), gate: RwLock::new(()) });
            let x = s.begin(90, 2);
            // p: first id, first group, first balance
            let ok = (0..s.oid.len() as u64).all(|t| s.stmt(p, 90, &x, &S { kind: K_INS, t, p: [0, t, 1010], set: [0, 0], n: p.cfg_or("rows", 5) as u64, opt: 0 }));
            s.end(90, &x, ok);
            s
        })
        .await;
        let s1 = s.clone();
        simcore::record(STATE, &[89]);
        drive(p, 0, 10, move |c| client(p, c, &s1)).await;
        let s1 = s.clone();
        offload(move || {
            simcore::record(STATE, &[90]);
            for lv in 1..5 {
                let x = s1.begin(91, lv);
                for t in 0..s1.oid.len() as u64 {
                    s1.stmt(p, 91, &x, &S { kind: K_SEL, t, p: [0; 3], set: [0; 2], n: 0, opt: 0 });
                }
                s1.end(91, &x, lv & 1 == 0);
            }
        })
        .await;
        simcore::done();
    });
}
