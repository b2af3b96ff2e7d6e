//! Parsers for the simulated page: the modules of the repository, and modules
//! of our own that only carry autocomplete rules.
use crate::syntax::{misnamed, page_ops, Fix, Grammar, PageOp};
use kernel::{Plan, Rng};
use parser::{
    autocomplete::AutocompleteRule,
    make_parser::just_operator_parser,
    parse_module::{
        left_infix_rule, postfix_rule, prefix_rule, right_infix_rule, ParseModule, ParseRule,
    },
    parse_modules::{ParseModuleCollection, ParseModules},
    parser::MathParser,
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules,
        calculus_rules::CalculusRules, collections_rules::CollectionsRules,
        comparison_rules::ComparisonRules, core_rules::CoreRules, function_rules::FunctionRules,
        logic_rules::LogicRules, string_rules::StringRules,
    },
    syntax_tree::{PathIdentifier, SyntaxNodeNameMap},
};
use std::rc::Rc;
use treekit::{real, Kind, MNode};

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub text: String,
    pub result: Vec<MNode>,
}

struct PageRules {
    rules: Vec<AutocompleteRule>,
    ops: Vec<ParseRule>,
}

impl PageRules {
    fn new(modules: &mut ParseModules, rules: &[Rule], ops: &[PageOp]) -> PageRules {
        PageRules {
            rules: rules
                .iter()
                .map(|r| AutocompleteRule::new(r.text.clone(), real::nodes_to_real(&r.result)))
                .collect(),
            ops: ops
                .iter()
                .map(|o| {
                    let id = PathIdentifier::new(vec!["Page".into(), o.name.clone()]);
                    let id = modules.with_rule_name(id);
                    let text = just_operator_parser(o.symbols.clone());
                    match o.fix {
                        Fix::Prefix => prefix_rule(id, o.power, text),
                        Fix::Left => left_infix_rule(id, o.power, text),
                        Fix::Right => right_infix_rule(id, o.power, text),
                        Fix::Postfix => postfix_rule(id, o.power, text),
                    }
                })
                .collect(),
        }
    }
}

/// What a page's parser is made of.
pub struct Built {
    pub parser: Rc<MathParser>,
    /// autocomplete rules in the order in which they take priority
    pub rules: Vec<Rule>,
    pub grammar: Grammar,
    pub loose: Grammar,
    pub names: SyntaxNodeNameMap,
    /// a rule whose number does not lead back to its name
    pub misnamed: Option<String>,
}

impl ParseModule for PageRules {
    fn get_module_name(&self) -> &str {
        "Page"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.ops
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.rules
    }
}

/// What a plan says about the page's parser.
#[derive(Clone, Debug)]
pub struct Setup {
    pub full: bool,
    pub page: Vec<Rule>,
    pub ops: Vec<PageOp>,
    /// whether the page's module comes before the repository's
    pub early: bool,
}

const LETTERS: &[&str] = &["a", "b", "é", "∑"];

fn sym(s: &str) -> MNode {
    MNode::Sym(s.to_string())
}

impl Setup {
    /// parser: 0 no rules, 1 the repository's, 2 the page's, 3 both
    pub fn from_plan(plan: &Plan) -> Setup {
        let kind = plan.cfg("parser") % 4;
        let mut page = vec![];
        if kind >= 2 {
            let mut rng = Rng::new(plan.cfg("rules_seed") ^ 0x5);
            // Now and then a page with very many rules
            let n = if rng.permille(15) { 60 + rng.below(60) } else { 1 + rng.below(6) };
            for _ in 0..n {
                let len = if rng.permille(30) { 2 + rng.below(12) } else { 2 + rng.below(4) };
                let letters = 2 + rng.usize(3);
                let text: String = (0..len).map(|_| *rng.pick(&LETTERS[..letters])).collect();
                let result = match rng.below(9) {
                    0 => vec![],
                    1 => vec![sym("X")],
                    2 => text.chars().map(|c| sym(&c.to_string())).collect(),
                    3 => vec![MNode::Box(Kind::Frac, 1, vec![vec![], vec![]])],
                    4 => vec![sym("a"), MNode::Box(Kind::Sup, 1, vec![vec![sym("b")]])],
                    5 => vec![sym("a"), sym("b")],
                    6 => vec![MNode::Box(
                        Kind::Table,
                        2,
                        vec![vec![], vec![sym("a")], vec![], vec![]],
                    )],
                    7 => vec![sym("Y"), sym("Y"), sym("Y")],
                    _ => vec![MNode::Box(Kind::Root, 2, vec![vec![], vec![sym("é")]]), sym("a")],
                };
                page.push(Rule { text, result });
            }
        }
        let grammar = plan.cfg("grammar");
        Setup {
            full: kind % 2 == 1,
            page,
            ops: if grammar > 0 {
                page_ops(&mut Rng::new(grammar ^ 0x0B5))
            } else {
                vec![]
            },
            early: grammar % 5 == 1,
        }
    }

    /// Builds a parser of its own.
    pub fn build(&self) -> Built {
        let mut modules = ParseModules::new();
        let built_in = Rc::new(BuiltInRules::new(&mut modules));
        let mut list: Vec<Rc<dyn ParseModule>> = vec![
            built_in.clone(),
            Rc::new(CoreRules::new(&mut modules, &built_in)),
        ];
        let own = !self.page.is_empty() || !self.ops.is_empty();
        if own && self.early {
            list.push(Rc::new(PageRules::new(&mut modules, &self.page, &self.ops)));
        }
        if self.full {
            list.push(Rc::new(ArithmeticRules::new(&mut modules)));
            list.push(Rc::new(CalculusRules::new(&mut modules)));
            list.push(Rc::new(CollectionsRules::new(&mut modules)));
            list.push(Rc::new(ComparisonRules::new(&mut modules)));
        }
        list.push(Rc::new(FunctionRules::new(&mut modules, &built_in)));
        list.push(Rc::new(LogicRules::new(&mut modules)));
        list.push(Rc::new(StringRules::new(&mut modules)));
        if own && !self.early {
            list.push(Rc::new(PageRules::new(&mut modules, &self.page, &self.ops)));
        }
        let mut rules: Vec<Rule> = list
            .iter()
            .flat_map(|m| m.get_autocomplete_rules())
            .map(|r| Rule {
                text: r.parser.clone(),
                result: real::nodes_from_real(&r.result).expect("rule results are well-formed"),
            })
            .collect();
        rules.reverse();
        let names = modules.get_rule_name_map().clone();
        let grammar = Grammar::new(&list, &names, &self.ops);
        let parser = MathParser::new(ParseModuleCollection::new(built_in, list));
        Built {
            parser: Rc::new(parser),
            rules,
            loose: grammar.loose(),
            grammar,
            misnamed: misnamed(&names, &self.ops),
            names,
        }
    }
}
