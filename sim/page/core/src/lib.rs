//! The editor's Rust core (crate `aftermath-core`, the real one) as an addon
//! for node: one function that takes and returns JSON. It stands where the
//! WebAssembly module and its generated glue stand in a browser.
use aftermath_core::math_editor::MathEditorBindings;
use caret::math_editor::MathEditor;
use aftermath_core::math_parser::{
    MathParserBindings, ParseModuleCollectionBindings, ParseModulesBindings, ParseModulesCreator,
};
use parser::autocomplete::AutocompleteRule;
use parser::make_parser::{just_operator_parser, MakeParser};
use parser::parse_module::{left_infix_rule, BoxedParseModule, ParseModule, ParseRule};
use parser::rule_collection::{BoxedTokenParser, RcPrattParserType};
use parser::syntax_tree::{PathIdentifier, SyntaxNodeNameId};
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
    collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
    function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::os::raw::{c_char, c_void};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[allow(non_camel_case_types)]
type napi_env = *mut c_void;
#[allow(non_camel_case_types)]
type napi_value = *mut c_void;

extern "C" {
    fn napi_create_function(
        env: napi_env,
        name: *const c_char,
        len: usize,
        cb: extern "C" fn(napi_env, *mut c_void) -> napi_value,
        data: *mut c_void,
        result: *mut napi_value,
    ) -> i32;
    fn napi_set_named_property(env: napi_env, object: napi_value, name: *const c_char, value: napi_value) -> i32;
    fn napi_get_cb_info(
        env: napi_env,
        info: *mut c_void,
        argc: *mut usize,
        argv: *mut napi_value,
        this: *mut napi_value,
        data: *mut *mut c_void,
    ) -> i32;
    fn napi_get_value_string_utf8(
        env: napi_env,
        value: napi_value,
        buf: *mut c_char,
        size: usize,
        result: *mut usize,
    ) -> i32;
    fn napi_create_string_utf8(env: napi_env, s: *const c_char, len: usize, result: *mut napi_value) -> i32;
}

#[no_mangle]
pub extern "C" fn napi_register_module_v1(env: napi_env, exports: napi_value) -> napi_value {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let what = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{what} ({at})"));
    }));
    let mut f: napi_value = std::ptr::null_mut();
    unsafe {
        napi_create_function(env, c"call".as_ptr(), 4, entry, std::ptr::null_mut(), &mut f);
        napi_set_named_property(env, exports, c"call".as_ptr(), f);
    }
    exports
}

extern "C" fn entry(env: napi_env, info: *mut c_void) -> napi_value {
    let mut argv: [napi_value; 1] = [std::ptr::null_mut()];
    let mut argc = 1usize;
    let mut text = Vec::new();
    unsafe {
        napi_get_cb_info(
            env,
            info,
            &mut argc,
            argv.as_mut_ptr(),
            std::ptr::null_mut(),
            std::ptr::null_mut(),
        );
        let mut len = 0usize;
        napi_get_value_string_utf8(env, argv[0], std::ptr::null_mut(), 0, &mut len);
        text.resize(len + 1, 0u8);
        napi_get_value_string_utf8(env, argv[0], text.as_mut_ptr() as *mut c_char, len + 1, &mut len);
        text.truncate(len);
    }
    let request: Value = serde_json::from_slice(&text).unwrap_or(Value::Null);
    let answer = match catch_unwind(AssertUnwindSafe(|| dispatch(&request))) {
        Ok(Ok(v)) => json!({ "ok": v }),
        Ok(Err(v)) => json!({ "err": v }),
        Err(_) => json!({ "panic": LAST_PANIC.with(|p| p.borrow().clone()) }),
    };
    let text = answer.to_string();
    let mut out: napi_value = std::ptr::null_mut();
    unsafe {
        napi_create_string_utf8(env, text.as_ptr() as *const c_char, text.len(), &mut out);
    }
    out
}

enum Object {
    Gone,
    Modules(ParseModulesBindings),
    Module(BoxedParseModule),
    Collection(ParseModuleCollectionBindings),
    Parser(MathParserBindings),
    Editor(MathEditorBindings),
    /// An editor of the core, without the bindings: what the bound one is compared with.
    Mirror(MathEditor),
    /// Rule modules and a parser of the core, made without the bindings.
    PlainModules(PlainModules),
    PlainParser(Rc<MathParser>),
    /// The core stopped in the middle of a call: as in WebAssembly, where the
    /// object stays borrowed, every further call fails.
    Dead,
}
/// A module of the program's own. Two of them disagree with each other and
/// with the shipped ones, so that it shows which one was added last.
struct OwnRules {
    rules: Vec<ParseRule>,
    completions: Vec<AutocompleteRule>,
}
impl OwnRules {
    fn new(number: u32) -> Self {
        let power = if number == 0 { 50 } else { 300 };
        let id = |n| SyntaxNodeNameId::new(1000 + 10 * number + n);
        let sym = |s: &str| input_tree::node::InputNode::Symbol(s.to_string());
        Self {
            rules: ["+", "*", ";"]
                .iter()
                .zip(0..)
                .map(|(s, n)| left_infix_rule(id(n), power, just_operator_parser(*s)))
                .collect(),
            completions: vec![
                AutocompleteRule::new("lim", vec![sym(if number == 0 { "L" } else { "M" })]),
                AutocompleteRule::new("sum", vec![sym("S"), sym(if number == 0 { "0" } else { "1" })]),
            ],
        }
    }
}
impl ParseModule for OwnRules {
    fn get_module_name(&self) -> &str {
        "Own"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.rules
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.completions
    }
}
/// The rules of several modules in one: how the comparison parser is composed,
/// so that nothing depends on how the core handles a list of modules.
struct AllRules {
    rules: Vec<ParseRule>,
    completions: Vec<AutocompleteRule>,
}
impl AllRules {
    fn of(modules: &[Rc<dyn ParseModule>]) -> Self {
        let mut all = Self { rules: vec![], completions: vec![] };
        for m in modules {
            all.completions.extend_from_slice(m.get_autocomplete_rules());
            for (n, rule) in m.get_rules().iter().enumerate() {
                let of = || Box::new(RuleOf(m.clone(), n)) as Box<dyn MakeParser>;
                all.rules.push(match rule {
                    ParseRule::NameOnly(id) => ParseRule::NameOnly(*id),
                    ParseRule::Atom(id, _) => ParseRule::Atom(*id, of()),
                    ParseRule::Prefix(id, power, _) => ParseRule::Prefix(*id, *power, of()),
                    ParseRule::LeftInfix(id, power, _) => ParseRule::LeftInfix(*id, *power, of()),
                    ParseRule::RightInfix(id, power, _) => ParseRule::RightInfix(*id, *power, of()),
                    ParseRule::Postfix(id, power, _) => ParseRule::Postfix(*id, *power, of()),
                });
            }
        }
        all
    }
}
impl ParseModule for AllRules {
    fn get_module_name(&self) -> &str {
        "All"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.rules
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.completions
    }
}
struct RuleOf(Rc<dyn ParseModule>, usize);
impl MakeParser for RuleOf {
    fn build<'a>(&self, parser: RcPrattParserType<'a, 'a>) -> BoxedTokenParser<'a, 'a> {
        match &self.0.get_rules()[self.1] {
            ParseRule::Atom(_, p)
            | ParseRule::Prefix(_, _, p)
            | ParseRule::LeftInfix(_, _, p)
            | ParseRule::RightInfix(_, _, p)
            | ParseRule::Postfix(_, _, p) => p.build(parser),
            ParseRule::NameOnly(_) => unreachable!(),
        }
    }
}
struct PlainModules {
    names: ParseModules,
    built_in: Rc<BuiltInRules>,
    made: Vec<Rc<dyn ParseModule>>,
}
thread_local! {
    static OBJECTS: RefCell<Vec<Object>> = const { RefCell::new(vec![]) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn put(o: Object) -> Value {
    OBJECTS.with(|os| {
        let mut os = os.borrow_mut();
        os.push(o);
        json!(os.len() - 1)
    })
}
/// Takes an object out for the time of a call; `Dead` stays behind when it fails.
fn take(h: &Value) -> Object {
    let i = h.as_u64().unwrap_or(u64::MAX) as usize;
    OBJECTS.with(|os| match os.borrow_mut().get_mut(i) {
        Some(o) => std::mem::replace(o, Object::Dead),
        None => Object::Gone,
    })
}
fn back(h: &Value, o: Object) {
    let i = h.as_u64().unwrap_or(u64::MAX) as usize;
    OBJECTS.with(|os| {
        if let Some(slot) = os.borrow_mut().get_mut(i) {
            *slot = o;
        }
    })
}

fn from<T: DeserializeOwned>(v: &Value) -> Result<T, Value> {
    T::deserialize(v.clone()).map_err(|e| json!(e.to_string()))
}
fn js(r: Result<JsValue, JsValue>) -> Result<Value, Value> {
    r.map(|v| v.0).map_err(|v| v.0)
}

fn dispatch(request: &Value) -> Result<Value, Value> {
    let name = request["f"].as_str().unwrap_or("");
    let this = &request["this"];
    let a = |i: usize| &request["args"][i];
    let unknown = || Err(json!(format!("unknown function or object: {name}")));
    match name {
        "free" => {
            back(this, Object::Gone);
            return Ok(Value::Null);
        }
        "modules.new" => return Ok(put(Object::Modules(ParseModulesBindings::new()))),
        "collection.new" => {
            let Object::Modules(m) = take(a(0)) else { return unknown() };
            let c = ParseModuleCollectionBindings::new(&m);
            back(a(0), Object::Modules(m));
            return Ok(put(Object::Collection(c)));
        }
        "parser.new" => {
            let Object::Collection(c) = take(a(0)) else { return unknown() };
            back(a(0), Object::Gone);
            return Ok(put(Object::Parser(MathParserBindings::new(c))));
        }
        "editor.new" => {
            let Object::Parser(p) = take(a(0)) else { return unknown() };
            let e = MathEditorBindings::new(&p);
            back(a(0), Object::Parser(p));
            return Ok(put(Object::Editor(e)));
        }
        "mirror.new" => {
            let Object::Parser(p) = take(a(0)) else { return unknown() };
            let e = MathEditor::new(p.get_parser());
            back(a(0), Object::Parser(p));
            return Ok(put(Object::Mirror(e)));
        }
        "plain.modules" => {
            let mut names = ParseModules::new();
            let built_in = Rc::new(BuiltInRules::new(&mut names));
            return Ok(put(Object::PlainModules(PlainModules { names, built_in, made: vec![] })));
        }
        "plain.editor" => {
            let Object::PlainParser(p) = take(a(0)) else { return unknown() };
            let e = MathEditor::new(p.clone());
            back(a(0), Object::PlainParser(p));
            return Ok(put(Object::Mirror(e)));
        }
        "make" => {
            let Object::Modules(mut m) = take(a(0)) else { return unknown() };
            let made = match a(1).as_str().unwrap_or("") {
                "make_core" => ParseModulesCreator::make_core(&mut m),
                "make_arithmetic" => ParseModulesCreator::make_arithmetic(&mut m),
                "make_calculus" => ParseModulesCreator::make_calculus(&mut m),
                "make_collections" => ParseModulesCreator::make_collections(&mut m),
                "make_comparison" => ParseModulesCreator::make_comparison(&mut m),
                "make_function" => ParseModulesCreator::make_function(&mut m),
                "make_logic" => ParseModulesCreator::make_logic(&mut m),
                "make_string" => ParseModulesCreator::make_string(&mut m),
                "make_own0" => BoxedParseModule::new(Rc::new(OwnRules::new(0))),
                "make_own1" => BoxedParseModule::new(Rc::new(OwnRules::new(1))),
                _ => return unknown(),
            };
            back(a(0), Object::Modules(m));
            return Ok(put(Object::Module(made)));
        }
        _ => {}
    }
    let mut object = take(this);
    let result = match (&mut object, name) {
        (Object::Modules(m), "get_built_in") => Ok(put(Object::Module(m.get_built_in()))),
        (Object::Modules(m), "get_syntax_node_name_map") => {
            js(serde_wasm_bindgen::to_value(&m.get_syntax_node_name_map()).map_err(JsValue::from))
        }
        (Object::PlainModules(p), "plain.make") => {
            let (names, b) = (&mut p.names, p.built_in.clone());
            let made: Rc<dyn ParseModule> = match a(0).as_str().unwrap_or("") {
                "built_in" => b,
                "core" => Rc::new(CoreRules::new(names, &b)),
                "arithmetic" => Rc::new(ArithmeticRules::new(names)),
                "calculus" => Rc::new(CalculusRules::new(names)),
                "collections" => Rc::new(CollectionsRules::new(names)),
                "comparison" => Rc::new(ComparisonRules::new(names)),
                "function" => Rc::new(FunctionRules::new(names, &b)),
                "logic" => Rc::new(LogicRules::new(names)),
                "string" => Rc::new(StringRules::new(names)),
                "own0" => Rc::new(OwnRules::new(0)),
                "own1" => Rc::new(OwnRules::new(1)),
                _ => return unknown(),
            };
            p.made.push(made);
            Ok(json!(p.made.len() - 1))
        }
        (Object::PlainModules(p), "plain.parser") => {
            let which: Vec<usize> = from(a(0))?;
            let mut modules: Vec<Rc<dyn ParseModule>> = vec![p.built_in.clone()];
            modules.extend(which.iter().filter_map(|i| p.made.get(*i).cloned()));
            let all: Rc<dyn ParseModule> = Rc::new(AllRules::of(&modules));
            let parser = MathParser::new(ParseModuleCollection::new(p.built_in.clone(), vec![all]));
            Ok(put(Object::PlainParser(Rc::new(parser))))
        }
        (Object::PlainModules(p), "plain.name") => {
            let path = PathIdentifier::new(from::<Vec<String>>(a(0))?);
            let id = p.names.with_rule_name(path.clone());
            Ok(json!([id, p.names.get_rule_name(path), p.names.get_rule_name_map().get_reverse(id)]))
        }
        (Object::PlainModules(p), "plain.names") => {
            // Serialized by hand: [name, number] pairs, as the core knows them
            let names = serde_wasm_bindgen::to_value(p.names.get_rule_name_map()).map_err(|e| json!(e.to_string()))?;
            Ok(names.0)
        }
        (Object::Collection(c), "add_module") => {
            let Object::Module(m) = take(a(0)) else { return unknown() };
            back(a(0), Object::Gone);
            c.add_module(m);
            Ok(Value::Null)
        }
        (Object::Editor(e), _) => editor(e, name, request),
        (Object::Mirror(e), _) => mirror(e, name, request),
        (Object::Dead, _) => Err(json!("recursive use of an object detected which would lead to unsafe aliasing in rust")),
        _ => Err(json!(format!("unknown function or object: {name}"))),
    };
    back(this, object);
    result
}

fn editor(e: &mut MathEditorBindings, name: &str, request: &Value) -> Result<Value, Value> {
    let a = |i: usize| &request["args"][i];
    Ok(match name {
        "focus" => {
            e.focus();
            Value::Null
        }
        "unfocus" => {
            e.unfocus();
            Value::Null
        }
        "move_caret" => {
            e.move_caret(from(a(0))?, from(a(1))?);
            Value::Null
        }
        "select_with_caret" => json!(e.select_with_caret(from(a(0))?, from(a(1))?)),
        "remove_at_caret" => json!(e.remove_at_caret(from(a(0))?, from(a(1))?)),
        "insert_at_caret" => {
            e.insert_at_caret(JsValue(a(0).clone())).map_err(|v| v.0)?;
            Value::Null
        }
        "select_all" => {
            e.select_all();
            Value::Null
        }
        "undo" => json!(e.undo()),
        "redo" => json!(e.redo()),
        "start_selection" => {
            e.start_selection(from(a(0))?, from(a(1))?);
            Value::Null
        }
        "extend_selection" => {
            e.extend_selection(from(a(0))?);
            Value::Null
        }
        "finish_selection" => {
            e.finish_selection();
            Value::Null
        }
        "copy" => json!(e.copy(from(a(0))?)?),
        "paste" => {
            e.paste(from(a(0))?, from(a(1))?)?;
            Value::Null
        }
        "open_autocomplete" => json!(e.open_autocomplete()),
        "finish_autocomplete" => json!(e.finish_autocomplete(from(a(0))?)),
        "move_in_autocomplete" => json!(e.move_in_autocomplete(from(a(0))?)),
        "get_autocomplete" => return js(e.get_autocomplete()),
        "get_caret" => return js(e.get_caret()),
        "get_input_tree" => return js(e.get_input_tree()),
        "get_syntax_tree" => return js(e.get_syntax_tree()),
        "splice_at_range" => {
            e.splice_at_range(from(a(0))?, JsValue(a(1).clone())).map_err(|v| v.0)?;
            Value::Null
        }
        _ => return Err(json!(format!("unknown function: {name}"))),
    })
}

/// The calls that the simulator makes itself, on an editor of its own.
fn mirror(e: &mut MathEditor, name: &str, request: &Value) -> Result<Value, Value> {
    let a = |i: usize| &request["args"][i];
    let plain = |r: Result<Value, serde_json::Error>| r.map_err(|e| json!(e.to_string()));
    match name {
        "focus" => e.focus(),
        "unfocus" => e.unfocus(),
        "move_caret" => e.move_caret(from(a(0))?, from(a(1))?),
        "select_with_caret" => return Ok(json!(e.select_with_caret(from(a(0))?, from(a(1))?).is_some())),
        "remove_at_caret" => return Ok(json!(e.remove_at_caret(from(a(0))?, from(a(1))?).is_some())),
        "insert_at_caret" => e.insert_at_caret(from(a(0))?),
        "select_all" => e.select_all(),
        "undo" => return Ok(json!(e.undo().is_some())),
        "redo" => return Ok(json!(e.redo().is_some())),
        "open_autocomplete" => return Ok(json!(e.open_autocomplete().is_some())),
        "finish_autocomplete" => return Ok(json!(e.finish_autocomplete(from(a(0))?).is_some())),
        "move_in_autocomplete" => return Ok(json!(e.move_in_autocomplete(from(a(0))?).is_some())),
        "get_autocomplete" => {
            let Some(found) = e.get_autocomplete() else { return Ok(Value::Null) };
            let (selected, matches, place) = found.destructure();
            let matches: Vec<Value> = matches
                .iter()
                .map(|m| {
                    json!({"rule": serde_json::to_value(m.rule).unwrap_or_default(), "rule_match_length": m.rule_match_length,
                           "input_match_length": m.input_match_length})
                })
                .collect();
            return Ok(json!({"selected_index": selected, "matches": matches, "caret_position": place}));
        }
        "get_syntax_tree" => return plain(serde_json::to_value(e.get_syntax_tree())),
        "start_selection" => e.start_selection(from(a(0))?, from(a(1))?),
        "extend_selection" => e.extend_selection(from(a(0))?),
        "finish_selection" => e.finish_selection(),
        "splice_at_range" => {
            e.splice_at_range(from(a(0))?, from(a(1))?);
        }
        "copy" => return e.copy(from(a(0))?).map(|s| json!(s)).map_err(|e| json!(e.to_string())),
        "paste" => e.paste(from(a(0))?, from(a(1))?).map_err(|e| json!(e.to_string()))?,
        "get_caret" => return plain(serde_json::to_value(e.get_caret())),
        "get_input_tree" => return plain(serde_json::to_value(e.get_input_tree())),
        _ => return Err(json!(format!("unknown function: {name}"))),
    }
    Ok(Value::Null)
}
