//! Stand-ins for #[pyfunction] and #[pymodule]: the function as it is (made public), and beside it a module
//! with its name, its parameter names and a caller that takes the arguments by position.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn flat(ts: TokenStream) -> Vec<TokenTree> {
    ts.into_iter().collect()
}
fn is_punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
fn is_ident(t: &TokenTree, s: &str) -> bool {
    matches!(t, TokenTree::Ident(i) if i.to_string() == s)
}
/// name = "..." in the tokens of an attribute
fn name_of(ts: TokenStream) -> Option<String> {
    let v = flat(ts);
    for i in 0..v.len() {
        if is_ident(&v[i], "name") && i + 2 < v.len() && is_punct(&v[i + 1], '=') {
            return Some(v[i + 2].to_string().trim_matches('"').to_string());
        }
        if let TokenTree::Group(g) = &v[i] {
            if let Some(n) = name_of(g.stream()) {
                return Some(n);
            }
        }
    }
    None
}
struct Func {
    /// the item without #[pyo3(...)], public
    item: TokenStream,
    rust_name: String,
    py_name: String,
    params: Vec<(String, TokenStream)>,
}
fn parse(attr: TokenStream, item: TokenStream) -> Func {
    let v = flat(item);
    let mut py = name_of(attr);
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    // attributes
    while i + 1 < v.len() && is_punct(&v[i], '#') {
        if let TokenTree::Group(g) = &v[i + 1] {
            let inner = flat(g.stream());
            if inner.first().is_some_and(|t| is_ident(t, "pyo3")) {
                py = name_of(g.stream()).or(py);
            } else {
                out.push(v[i].clone());
                out.push(v[i + 1].clone());
            }
        }
        i += 2;
    }
    // visibility
    if is_ident(&v[i], "pub") {
        i += 1;
        if matches!(&v[i], TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis) {
            i += 1;
        }
    }
    out.extend("pub".parse::<TokenStream>().unwrap());
    let mut name = String::new();
    let mut params = vec![];
    while i < v.len() {
        if name.is_empty() && is_ident(&v[i], "fn") {
            name = ident_text(&v[i + 1]);
            out.push(v[i].clone());
            out.push(v[i + 1].clone());
            i += 2;
            continue;
        }
        if !name.is_empty() && params.is_empty() {
            if let TokenTree::Group(g) = &v[i] {
                if g.delimiter() == Delimiter::Parenthesis {
                    let (p, clean) = split(g.stream());
                    params = p;
                    out.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, clean)));
                    i += 1;
                    // the rest, unchanged
                    out.extend(v[i..].iter().cloned());
                    break;
                }
            }
        }
        out.push(v[i].clone());
        i += 1;
    }
    Func { item: out.into_iter().collect(), py_name: py.unwrap_or(name.clone()), rust_name: name, params }
}
fn ident_text(t: &TokenTree) -> String {
    match t {
        TokenTree::Group(g) => ident_text(&flat(g.stream())[0]),
        t => t.to_string(),
    }
}
/// parameters, and the list without attributes
fn split(ts: TokenStream) -> (Vec<(String, TokenStream)>, TokenStream) {
    let v = flat(ts);
    let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
    let mut depth = 0i32;
    let mut prev_dash = false;
    for t in &v {
        if is_punct(t, '<') {
            depth += 1;
        }
        if is_punct(t, '>') && !prev_dash {
            depth -= 1;
        }
        prev_dash = is_punct(t, '-');
        if depth == 0 && is_punct(t, ',') {
            parts.push(vec![]);
        } else {
            parts.last_mut().unwrap().push(t.clone());
        }
    }
    let mut out = vec![];
    let mut clean = TokenStream::new();
    for p in parts {
        let mut q = &p[..];
        while q.len() > 1 && is_punct(&q[0], '#') {
            q = &q[2..];
        }
        if q.is_empty() {
            continue;
        }
        clean.extend(q.iter().cloned());
        clean.extend(",".parse::<TokenStream>().unwrap());
        let k = q.iter().position(|t| is_punct(t, ':')).unwrap();
        let name = ident_text(&q[k - 1]);
        out.push((name, q[k + 1..].iter().cloned().collect()));
    }
    (out, clean)
}
#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(attr, item);
    let mut code = format!(
        "#[allow(non_snake_case, unused)] pub mod __py_{0} {{ use super::*; pub const NAME: &str = \"{1}\"; pub const ID: u64 = ::pyo3::id_of(NAME); pub const PARAMS: &[&str] = &[{2}];\n",
        f.rust_name,
        f.py_name,
        f.params.iter().map(|p| format!("\"{}\",", p.0)).collect::<String>()
    );
    code += "pub fn call<'py>(a: &mut ::pyo3::Args<'py>) -> ::pyo3::PyResult<()> {";
    for (i, (_, ty)) in f.params.iter().enumerate() {
        code += &format!("let p{i}: {ty} = ::pyo3::FromArg::from_arg(a)?;");
    }
    code += &format!("::pyo3::IntoUnit::unit(super::{}({})) }} }}", f.rust_name, (0..f.params.len()).map(|i| format!("p{i},")).collect::<String>());
    let mut out = f.item;
    out.extend(code.parse::<TokenStream>().unwrap());
    out
}
#[proc_macro_attribute]
pub fn pymodule(attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(attr, item);
    let mut out = f.item;
    // the module is called through one name, whatever its own
    let n = f.params.len();
    let call = if n == 2 { format!("super::{}(::pyo3::Python::new(), m)", f.rust_name) } else { format!("super::{}(m)", f.rust_name) };
    out.extend(
        format!(
            "#[allow(unused)] pub mod __py_module {{ pub const NAME: &str = \"{}\"; pub const PARAMS: &[&str] = &[]; pub fn call<'a, 'b>(_: &'a mut ::pyo3::Args<'b>) -> ::pyo3::PyResult<()> {{ Ok(()) }} pub fn init<'py>(m: &::pyo3::Bound<'py, ::pyo3::types::PyModule>) -> ::pyo3::PyResult<()> {{ {call} }} }}",
            f.py_name
        )
        .parse::<TokenStream>()
        .unwrap(),
    );
    out
}
/// wrap_pyfunction!(path::name, m) or wrap_pyfunction!(path::name)
#[proc_macro]
pub fn wrap_pyfunction(ts: TokenStream) -> TokenStream {
    let v = flat(ts);
    let k = v.iter().position(|t| is_punct(t, ',')).unwrap_or(v.len());
    let mut path: Vec<TokenTree> = v[..k].to_vec();
    let last = ident_text(&path.pop().unwrap());
    let pre: TokenStream = path.into_iter().collect();
    format!("::core::result::Result::<::pyo3::Registered, ::pyo3::PyErr>::Ok(::pyo3::Registered {{ id: {pre} __py_{last}::ID }})").parse().unwrap()
}
