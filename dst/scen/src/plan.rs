//! Statements the way the SQL front end hands them on: logical plans, optimised and then converted.
use crate::stmt::*;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::catalog::Catalog;
use ferrite::sql::execution::check_option::{CheckOption, CheckOptions};
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::ComparisonType;
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::logic_expression::LogicType;
use ferrite::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode};
use ferrite::sql::execution::plans::aggregation_plan::AggregationPlanNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection};
use ferrite::sql::optimizer::Optimizer;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalPlanType, LogicalToPhysical};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use simcore::Plan;
use sqlparser::ast::{JoinConstraint, JoinOperator};
use std::sync::Arc;

type L = Box<LogicalPlan>;
fn at(sc: &Schema, i: usize) -> Ex {
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, i, sc.get_columns()[i].clone(), vec![])))
}
/// SELECT these columns FROM x
fn select(x: L, c: &[usize]) -> L {
    let sc = x.get_schema().unwrap();
    LogicalPlan::project(c.iter().map(|i| at(&sc, *i)).collect(), Schema::new(c.iter().map(|i| sc.get_columns()[*i].clone()).collect()), x)
}
fn all(x: L) -> L {
    let n = x.get_schema().unwrap().get_columns().len();
    select(x, &(0..n).collect::<Vec<_>>())
}
fn order_by(x: L, by: &[(usize, bool)]) -> L {
    let sc = x.get_schema().unwrap();
    let dir = |up: bool| if up { OrderDirection::Asc } else { OrderDirection::Desc };
    LogicalPlan::sort(by.iter().map(|(i, up)| OrderBySpec::new(at(&sc, *i), dir(*up))).collect(), sc.clone(), x)
}
fn limit(x: L, n: u64) -> L {
    LogicalPlan::limit(n as usize, x.get_schema().unwrap(), x)
}
fn offset(x: L, n: u64) -> L {
    LogicalPlan::offset(n as usize, x.get_schema().unwrap(), x)
}
fn filter(x: L, e: Ex) -> L {
    LogicalPlan::filter(x.get_schema().unwrap(), String::new(), 0, e, x)
}
fn yes() -> Ex {
    Arc::new(Expression::Constant(ConstantExpression::new(Value::new(true), Column::new("TRUE", TypeId::Boolean), vec![])))
}
fn real() -> Ex {
    let id: Ex = col(0, 0);
    cmp(id, Arc::new(Expression::Constant(ConstantExpression::new(Value::new(-1), Column::new("c", TypeId::Integer), vec![]))), ComparisonType::GreaterThan)
}
fn scan(oid: &[u64], t: u64, alias: Option<&str>) -> L {
    let sc = match alias {
        Some(a) => Schema::new(
            cols()
                .into_iter()
                .map(|mut c| {
                    c.set_name(format!("{a}.{}", c.get_name()));
                    c
                })
                .collect(),
        ),
        None => schema(),
    };
    LogicalPlan::table_scan(tname(t), sc, oid[t as usize])
}
/// `shape` chooses how the condition is put: once, twice, or with one that holds for every row below or above.
fn from(oid: &[u64], s: &S, shape: u64, alias: Option<&str>) -> L {
    let x = scan(oid, s.t, alias);
    let Some(e) = pred(s.p[0], s.p[1], s.p[2]) else { return if shape == 2 { filter(x, yes()) } else { x } };
    match shape {
        1 => filter(filter(x, e.clone()), e),
        2 => filter(filter(x, yes()), e),
        3 => filter(filter(x, e), yes()),
        5 => filter(filter(x, real()), e),
        6 => filter(filter(x, e), real()),
        _ => filter(x, e),
    }
}
fn join(a: L, b: L, on: Ex, how: JoinOperator) -> L {
    let (l, r) = (a.get_schema().unwrap(), b.get_schema().unwrap());
    LogicalPlan::nested_loop_join(l, r, on, how, a, b)
}
fn grouped(x: L, by: &[usize], aggs: Vec<Ex>) -> L {
    let sc = x.get_schema().unwrap();
    let g: Vec<Ex> = by.iter().map(|i| at(&sc, *i)).collect();
    let out = AggregationPlanNode::new(vec![], g.clone(), aggs.clone()).get_output_schema().clone();
    LogicalPlan::aggregate(g, aggs, out, x)
}
/// The statement's logical plan, if the front end would make one of this kind.
fn logical(p: &Plan, oid: &[u64], s: &S, args: &[u64], shape: u64) -> Option<L> {
    let (t, name) = (oid[s.t as usize], tname(s.t));
    let src = || from(oid, s, shape, None);
    // what the parser makes of `a.x = b.y` or `b.y = a.x`, the right column counted from the left of the joined row
    let eq = |l: usize, r: usize| if s.opt >= 128 { cmp(col(0, r), col(0, l), ComparisonType::Equal) } else { cmp(col(0, l), col(0, r), ComparisonType::Equal) };
    let on = |c: JoinOperator| join(from(oid, s, shape, Some("a")), scan(oid, s.n % oid.len() as u64, Some("b")), eq(1, COLS + 1), c);
    let by = [(2, false), (0, true)];
    Some(match s.kind {
        K_INSV => LogicalPlan::insert(name, schema(), t, LogicalPlan::values(rows(p, s, args), schema())),
        K_INSSEL => {
            let from_n = S { t: s.n, ..s.clone() };
            LogicalPlan::insert(name, schema(), t, all(from(oid, &from_n, shape, None)))
        }
        K_UPD => LogicalPlan::update(name, schema(), t, sets(p, s, args), src()),
        K_DEL => LogicalPlan::delete(name, schema(), t, src()),
        K_SEL => all(src()),
        K_SORT => order_by(all(src()), &by),
        K_LIMIT => limit(order_by(all(src()), &by), s.n),
        K_OFFSET => offset(order_by(all(src()), &by), s.n),
        K_SORTG => order_by(all(src()), &[(1, false), (0, true)]),
        K_AGG => all(grouped(src(), &[], aggs())),
        K_GROUP => all(grouped(src(), &[1], aggs())),
        K_GSORT => order_by(all(grouped(src(), &[1], aggs())), &[(1, false), (0, true)]),
        K_HAVING => all(filter(grouped(src(), &[1], aggs()), cmp(col(0, 1), int(s.n), ComparisonType::GreaterThan))),
        K_DISTINCT => {
            let x = select(src(), &[1]);
            LogicalPlan::distinct(x.get_schema().unwrap(), x)
        }
        K_PROJ => select(src(), &[2, 0]),
        K_AGGX => all(grouped(src(), &[1], aggx())),
        K_EXPR => {
            let (e, sc) = computed();
            LogicalPlan::project(e, sc, src())
        }
        K_NLJ => all(on(JoinOperator::Inner(JoinConstraint::None))),
        K_LEFT => all(on(JoinOperator::LeftOuter(JoinConstraint::None))),
        K_RIGHT => all(on(JoinOperator::RightOuter(JoinConstraint::None))),
        K_FULL => all(on(JoinOperator::FullOuter(JoinConstraint::None))),
        K_JAGG => all(grouped(on(JoinOperator::Join(JoinConstraint::None)), &[1], aggs())),
        // ON a.grp = b.grp AND a.id = b.id WHERE a.bal >= ...: rows of both, told from the joined row
        K_JOIN2 => {
            let j = join(scan(oid, s.t, Some("a")), scan(oid, s.n % oid.len() as u64, Some("b")), logic(eq(1, COLS + 1), eq(0, COLS), LogicType::And), JoinOperator::Inner(JoinConstraint::None));
            let c: Vec<usize> = (0..2 * COLS).collect();
            select(pred(s.p[0], s.p[1], s.p[2]).map(|e| filter(j.clone(), e)).unwrap_or(j), &c)
        }
        // a JOIN b ON a.grp = b.grp JOIN a AS c ON b.id = c.id
        K_JOIN3 => {
            let j = on(JoinOperator::Inner(JoinConstraint::None));
            all(join(j, scan(oid, s.t, Some("c")), eq(COLS, 2 * COLS), JoinOperator::Inner(JoinConstraint::None)))
        }
        // a JOIN (SELECT bal, id FROM b) AS d ON a.id = d.id
        K_DERIVED => {
            let d = select(scan(oid, s.n % oid.len() as u64, None), &[2, 0]);
            let sc = Schema::new(vec![Column::new("d.bal", TypeId::Integer), Column::new("d.id", TypeId::Integer)]);
            let d = Box::new(LogicalPlan::new(LogicalPlanType::Projection { expressions: vec![], schema: sc.clone(), column_mappings: vec![] }, vec![d]));
            let a = from(oid, s, shape, Some("a"));
            let e = Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, COLS + 1, sc.get_columns()[1].clone(), vec![])));
            let e = if s.opt >= 128 { (e, at(&a.get_schema().unwrap(), 0)) } else { (at(&a.get_schema().unwrap(), 0), e) };
            all(join(a, d, cmp(e.0, e.1, ComparisonType::Equal), JoinOperator::Inner(JoinConstraint::None)))
        }
        // ORDER BY of the rows another ORDER BY ... LIMIT leaves
        K_RESORT => order_by(limit(order_by(all(src()), &by), s.n), &[(0, true), (3, true)]),
        // columns chosen from chosen columns
        K_PROJ2 => select(select(src(), &[3, 2, 1, 0]), &[1, 3]),
        _ => return None,
    })
}
/// None: not a statement of the front end
pub fn planned(p: &Plan, cat: &Arc<RwLock<Catalog>>, oid: &[u64], s: &S, args: &[u64]) -> Option<Result<PlanNode, String>> {
    let l = logical(p, oid, s, args, s.opt / 16 % 8)?;
    let mut o = CheckOptions::new();
    // the engine always sets this one, and relies on it to take away a derived table's alias
    if s.opt % 16 & 1 != 0 || s.kind == K_DERIVED {
        o.add_check(CheckOption::EnableNljCheck);
    }
    if s.opt % 16 & 2 != 0 {
        o.add_check(CheckOption::EnableTopnCheck);
    }
    if s.opt % 16 & 4 != 0 {
        o.add_check(CheckOption::EnablePushdownCheck);
    }
    let r = Optimizer::new(cat.clone()).optimize(l, Arc::new(o)).map_err(|e| e.to_string());
    Some(r.and_then(|l| l.to_physical_plan()))
}
