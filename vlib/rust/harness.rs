
// ---- appended by /verif: line-protocol driver (scratch copy only) ----
#[allow(dead_code)]
pub mod vp {
    use super::*;
    use crate::count_expr::{CountOrInf, Function, RecursiveExpr, VarSum};
    use std::str::FromStr;

    type Toks<'a> = std::iter::Peekable<std::str::SplitWhitespace<'a>>;
    fn var(s: &str) -> Variable { Variable::from_str(s).unwrap() }
    pub fn expr(t: &mut Toks) -> CountExpr {
        match t.next().expect("token") {
            "V" => {
                let k: usize = t.next().unwrap().parse().unwrap();
                let mut s = VarSum::from(0);
                for _ in 0..k {
                    let v = var(t.next().unwrap());
                    let c: CountType = t.next().unwrap().parse().unwrap();
                    s = s + VarSum::from(v) * c;
                }
                let c: CountType = t.next().unwrap().parse().unwrap();
                CountExpr::VarSum(s + VarSum::from(c))
            }
            "R" => {
                let v = var(t.next().unwrap());
                let f = expr(t);
                let n = expr(t);
                let b = expr(t);
                CountExpr::RecursiveExpr(RecursiveExpr {
                    func: Box::new(Function { bound_var: v, expr: f }),
                    num_repeats: Box::new(n),
                    base: Box::new(b),
                })
            }
            x => panic!("bad token {}", x),
        }
    }
    fn one(s: &str) -> CountExpr { expr(&mut s.split_whitespace().peekable()) }
    fn inf(s: &str) -> CountOrInf { if s.trim() == "I" { CountOrInf::Infinity } else { CountOrInf::Finite(one(s)) } }
    fn subst(s: &str) -> VarSubst {
        let mut t = s.split_whitespace().peekable();
        let mut r = VarSubst::default();
        while t.peek().is_some() {
            let v = var(t.next().unwrap());
            r.insert(v, expr(&mut t));
        }
        r
    }
    fn config(s: &str) -> Result<Config, String> {
        let mut p = s.splitn(2, '@');
        let c = Config::from_str(p.next().unwrap()).map_err(|e| e.to_string())?;
        match p.next() { None => Ok(c), Some(x) => c.subst(&subst(x)).map_err(|e| e.to_string()) }
    }
    fn steps(s: &str) -> Vec<ProofStep> {
        s.split('\x1f').filter(|x| !x.is_empty()).map(|x| match &x[..1] {
            "T" => ProofStep::TMSteps(x[1..].parse().unwrap()),
            "A" => ProofStep::Admit,
            "H" => ProofStep::InductiveStep(subst(&x[1..])),
            "R" => {
                let (id, rest) = x[1..].split_once(':').unwrap();
                ProofStep::RuleStep { rule_id: id.parse().unwrap(), var_assignment: subst(rest) }
            }
            _ => panic!("bad step"),
        }).collect()
    }
    fn rule(s: &str) -> Result<Rule, String> {
        let f: Vec<&str> = s.split('\x1e').collect();
        let proof = if f[2] == "S" { Proof::Simple(steps(f[3])) } else { Proof::Inductive { proof_base: steps(f[3]), proof_inductive: steps(f[4]) } };
        Ok(Rule { init_config: config(f[0])?, final_config: config(f[1])?, proof })
    }
    fn opt<T: std::fmt::Display>(o: Option<T>) -> Result<String, String> { Ok(match o { Some(x) => format!("some\t{}", x), None => "none".to_string() }) }
    pub fn command(line: &str) -> Result<String, String> {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "tm" => TM::from_str(f[1]).map(|t| format!("{}\t{}\t{}", t, t.num_states(), t.num_symbols())).map_err(|e| e.to_string()),
            "expr" => Ok(inf(f[1]).to_string()),
            "parse" => CountOrInf::from_str(f[1]).map(|e| e.to_string()).map_err(|e| e.to_string()),
            "subst" => inf(f[1]).subst(&subst(f[2])).map(|e| e.to_string()).map_err(|e| e.to_string()),
            "add" => opt(inf(f[1]).checked_add(&inf(f[2]))),
            "sub" => opt(inf(f[1]).checked_sub(&inf(f[2]))),
            "dec" => opt(inf(f[1]).decrement()),
            "zero" => Ok(inf(f[1]).is_zero().to_string()),
            "apply" => Ok(Function { bound_var: var(f[1]), expr: one(f[2]) }.apply(one(f[3])).to_string()),
            "compose" => Ok(Function { bound_var: var(f[1]), expr: one(f[2]) }.compose(&Function { bound_var: var(f[3]), expr: one(f[4]) }).to_string()),
            "cfg" => config(f[1]).map(|c| c.to_string()),
            "step" => {
                let tm = TM::from_str(f[1]).map_err(|e| e.to_string())?;
                let mut c = config(f[3])?;
                match c.step_n(&tm, f[2].parse().unwrap()) { Ok(()) => Ok(format!("some\t{}", c)), Err(e) => Ok(format!("none\t{}", e)) }
            }
            "replace" => match config(f[1])?.replace(&config(f[2])?, &config(f[3])?) { Ok(c) => Ok(format!("some\t{}", c)), Err(e) => Ok(format!("none\t{}", e)) },
            "equiv" => Ok(config(f[1])?.equivalent_to(&config(f[2])?).to_string()),
            "rules" => {
                let tm = TM::from_str(f[1]).map_err(|e| e.to_string())?;
                let rules = f[2].split('\x1d').map(rule).collect::<Result<Vec<Rule>, String>>()?;
                match validate_rule_set(&RuleSet { tm, rules }) { Ok(()) => Ok("accepted".to_string()), Err(e) => Ok(format!("rejected\t{}", e)) }
            }
            x => panic!("unknown command {}", x),
        }
    }
}
