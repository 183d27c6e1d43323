//! Web servers: directory indexes and files.
use simcore::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Files by absolute path, served with index pages for their directories.
#[derive(Default, Clone)]
pub struct Site {
    pub files: BTreeMap<String, Vec<u8>>,
    /// order and style of the index pages
    pub seed: u64,
}
impl Site {
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.files.insert(path.to_string(), data.to_vec());
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        if let Some(d) = self.files.get(path) {
            return Some(d.clone());
        }
        if !path.ends_with('/') {
            return None;
        }
        let mut names: Vec<String> = Vec::new();
        for f in self.files.keys() {
            if let Some(rest) = f.strip_prefix(path) {
                let n = match rest.split_once('/') {
                    Some((d, _)) => format!("{}/", d),
                    None => rest.to_string(),
                };
                if !names.contains(&n) {
                    names.push(n);
                }
            }
        }
        if names.is_empty() {
            return None;
        }
        Rng::new(mix(self.seed, hash_str(path))).shuffle(&mut names);
        let parent = path.trim_end_matches('/').rsplit_once('/').map(|x| x.0).unwrap_or("");
        let links: Vec<String> = names.iter().map(|n| format!("<tr><td><a href=\"{}\">{}</a></td><td align=\"right\">1K</td></tr>", n, n)).collect();
        Some(page(parent, &links).into_bytes())
    }
    pub fn net(self: &Rc<Site>, host: &str) -> Net {
        let s = self.clone();
        Net::new(&[host], Box::new(move |q| s.answer(q)))
    }
    pub fn answer(&self, q: &Req) -> Resp {
        match self.get(q.path.split('?').next().unwrap()) {
            Some(d) => Resp::ok(d),
            None => Resp::status(404, "<html>\n<body>\nno such page on this server\n</body></html>\n"),
        }
    }
}
pub fn page(parent: &str, links: &[String]) -> String {
    format!(
        "<html><head><title>Index of x</title></head>\n<body><h1>Index</h1><table>\n<tr><th><a href=\"?C=N;O=D\">Name</a></th><th><a href=\"?C=M;O=A\">Last modified</a></th></tr>\n<tr><td><a href=\"{}/\">Parent Directory</a></td></tr>\n{}\n</table></body></html>\n",
        parent,
        links.join("\n")
    )
}
