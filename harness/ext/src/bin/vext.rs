//! A language-server extension for the checks: vext MODE LOG.
//! It writes what it is asked, and what the host answers it, as JSON lines to LOG.
use serde_json::{Value as J, json};
use std::io::Write;
use std::sync::{Arc, OnceLock};
use std::time::Duration;
use styx_lsp_ext::*;
use vox_stream::StreamLink;

#[derive(Clone)]
struct Ext {
    mode: String,
    log: String,
    host: Arc<OnceLock<StyxLspHostClient>>,
}

fn write(log: &str, j: J) {
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(log).unwrap();
    f.write_all((j.to_string() + "\n").as_bytes()).unwrap();
}

fn span(a: usize, b: usize) -> styx_tree::Span {
    styx_tree::Span { start: a as u32, end: b as u32 }
}

impl Ext {
    /// What happens before an answer, by mode. Returns the source the host has for the document.
    async fn asked(&self, what: &str, uri: &str, mut j: J) -> Option<String> {
        j["call"] = json!(what);
        j["uri"] = json!(uri);
        if self.mode != "good" && self.mode != "slow" {
            write(&self.log, j.clone());
        }
        match self.mode.as_str() {
            "hang-call" => loop {
                tokio::time::sleep(Duration::from_secs(3600)).await;
            },
            "exit-call" => std::process::exit(3),
            "panic-call" => panic!("as told"),
            "slow" => tokio::time::sleep(Duration::from_millis(40 + (uri.len() as u64 * 7 + j.to_string().len() as u64 * 13) % 160)).await,
            _ => {}
        }
        let host = loop {
            if let Some(h) = self.host.get() {
                break h;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        };
        let src = host.get_source(GetSourceParams { document_uri: uri.into() }).await;
        let src = match src {
            Ok(s) => s,
            Err(e) => {
                write(&self.log, json!({"host-error": format!("{e:?}"), "in": what}));
                return None;
            }
        };
        if self.mode == "good" || self.mode == "slow" {
            let doc = host.get_document(GetDocumentParams { document_uri: uri.into() }).await;
            let schema = host.get_schema(GetSchemaParams { document_uri: uri.into() }).await;
            j["src"] = json!(src);
            j["doc"] = json!(matches!(doc, Ok(Some(_))));
            j["schema"] = json!(schema.ok().flatten().map(|s| s.source));
            write(&self.log, j);
        }
        src
    }
    async fn pos(&self, uri: &str, offset: usize) -> Option<Position> {
        let host = self.host.get()?;
        let p = host.offset_to_position(OffsetToPositionParams { document_uri: uri.into(), offset: offset as u32 }).await.ok().flatten()?;
        let back = host.position_to_offset(PositionToOffsetParams { document_uri: uri.into(), position: p }).await.ok().flatten();
        write(&self.log, json!({"pos": [offset, p.line, p.character], "back": back, "uri": uri}));
        Some(p)
    }
}

fn keys(v: &Option<styx_tree::Value>) -> J {
    json!(v.as_ref().and_then(|v| v.as_object()).map(|o| o.entries.iter().map(|e| e.key.as_str().map(str::to_string)).collect::<Vec<_>>()))
}

fn zaps(s: &str) -> Vec<usize> {
    s.match_indices("zap").map(|(i, _)| i).collect()
}

impl StyxLspExtension for Ext {
    async fn initialize(&self, p: InitializeParams) -> InitializeResult {
        write(&self.log, json!({"call": "initialize", "uri": p.document_uri, "schema": p.schema_id}));
        if self.mode == "hang-init" {
            tokio::time::sleep(Duration::from_secs(3600)).await;
        }
        InitializeResult { name: "vext".into(), version: "1".into(), capabilities: vec![Capability::Completions, Capability::Hover, Capability::InlayHints, Capability::Diagnostics, Capability::CodeActions, Capability::Definition] }
    }
    async fn completions(&self, p: CompletionParams) -> Vec<CompletionItem> {
        self.asked("completions", &p.document_uri, json!({"offset": p.cursor.offset, "line": p.cursor.line, "char": p.cursor.character, "path": p.path, "prefix": p.prefix})).await;
        vec![CompletionItem { label: format!("ext-{}", p.cursor.offset), detail: Some(p.path.join("/")), documentation: None, kind: Some(CompletionKind::Value), sort_text: None, insert_text: Some("é😀zap".into()) }]
    }
    async fn hover(&self, p: HoverParams) -> Option<HoverResult> {
        self.asked("hover", &p.document_uri, json!({"offset": p.cursor.offset, "line": p.cursor.line, "char": p.cursor.character, "path": p.path, "keys": keys(&p.context)})).await;
        if self.mode == "good" {
            if let Some(host) = self.host.get() {
                let sub = host.get_subtree(GetSubtreeParams { document_uri: p.document_uri.clone(), path: p.path.clone() }).await.ok().flatten();
                write(&self.log, json!({"subtree": p.path, "uri": p.document_uri, "text": sub.as_ref().and_then(|v| v.as_str()), "span": sub.as_ref().and_then(|v| v.span).map(|s| [s.start, s.end])}));
            }
        }
        let range = match self.mode.as_str() {
            "bad-spans" => Some(Range::new(Position::new(u32::MAX, 7), Position::new(0, u32::MAX))),
            _ => self.pos(&p.document_uri, p.cursor.offset as usize).await.map(|q| Range::new(q, q)),
        };
        Some(HoverResult { contents: format!("ext {} {}", p.cursor.offset, p.path.join("/")), range })
    }
    async fn inlay_hints(&self, p: InlayHintParams) -> Vec<InlayHint> {
        let src = self.asked("inlay_hints", &p.document_uri, json!({})).await.unwrap_or_default();
        let mut out = vec![];
        for i in zaps(&src).into_iter().take(5) {
            if let Some(q) = self.pos(&p.document_uri, i).await {
                out.push(InlayHint { position: q, label: format!("ext@{i}"), kind: Some(InlayHintKind::Type), padding_left: true, padding_right: false });
            }
        }
        out
    }
    async fn diagnostics(&self, p: DiagnosticParams) -> Vec<Diagnostic> {
        self.asked("diagnostics", &p.document_uri, json!({"content": p.content})).await;
        let n = p.content.len();
        let mut spans: Vec<_> = zaps(&p.content).into_iter().map(|i| (span(i, i + 3), i)).collect();
        if self.mode == "bad-spans" {
            spans = (0..n.min(40)).map(|i| (span(i, n + 5 - i), i)).collect();
            spans.push((span(u32::MAX as usize, u32::MAX as usize), 0));
            spans.push((span(n + 9, 0), 0));
        }
        spans.into_iter().map(|(span, i)| Diagnostic { span, severity: [DiagnosticSeverity::Error, DiagnosticSeverity::Warning, DiagnosticSeverity::Info, DiagnosticSeverity::Hint][i % 4], message: format!("zap at {i}"), source: Some("vext".into()), code: Some(format!("E{i}")), data: None }).collect()
    }
    async fn code_actions(&self, p: CodeActionParams) -> Vec<CodeAction> {
        self.asked("code_actions", &p.document_uri, json!({"span": [p.span.start, p.span.end], "diags": p.diagnostics.iter().map(|d| json!([d.span.start, d.span.end, d.message])).collect::<Vec<_>>()})).await;
        let at = if self.mode == "bad-spans" { vec![span(p.span.start as usize + 1, p.span.end as usize), span(u32::MAX as usize, 0)] } else { vec![p.span] };
        vec![CodeAction { title: format!("ext {}..{}", p.span.start, p.span.end), kind: Some(CodeActionKind::Refactor), is_preferred: false, edit: Some(WorkspaceEdit { changes: vec![DocumentEdit { uri: p.document_uri.clone(), edits: at.into_iter().map(|span| TextEdit { span, new_text: "Z😀".into() }).collect() }] }) }]
    }
    async fn definition(&self, p: DefinitionParams) -> Vec<Location> {
        let src = self.asked("definition", &p.document_uri, json!({"offset": p.cursor.offset})).await.unwrap_or_default();
        if self.mode == "bad-spans" {
            return vec![Location { uri: "no uri at all".into(), span: span(1, 99999) }, Location { uri: p.document_uri.clone(), span: span(3, 1) }, Location { uri: "file:///nowhere.styx".into(), span: span(0, 1) }];
        }
        zaps(&src).into_iter().map(|i| Location { uri: p.document_uri.clone(), span: span(i, i + 3) }).collect()
    }
    async fn shutdown(&self) {
        write(&self.log, json!({"call": "shutdown"}));
    }
}

#[tokio::main]
async fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, log) = (a[1].clone(), a[2].clone());
    write(&log, json!({"start": std::process::id(), "mode": mode, "args": &a[1..]}));
    match mode.as_str() {
        "exit" => std::process::exit(1),
        "hang-start" => std::thread::sleep(Duration::from_secs(3600)),
        "garbage" => {
            let mut x: u32 = std::process::id() | 1;
            let mut b = vec![];
            for _ in 0..5000 {
                x ^= x << 13;
                x ^= x >> 17;
                x ^= x << 5;
                b.push(x as u8);
            }
            let _ = std::io::stdout().write_all(&b);
            let _ = std::io::stdout().flush();
            std::thread::sleep(Duration::from_secs(3600));
        }
        "closed" => {
            // says nothing, closes its output
            unsafe extern "C" { fn close(fd: i32) -> i32; }
            unsafe { close(1); }
            std::thread::sleep(Duration::from_secs(3600));
        }
        _ => {}
    }
    let host = Arc::new(OnceLock::new());
    let ext = Ext { mode, log, host: host.clone() };
    let client = vox::acceptor_on(StreamLink::stdio()).on_lane(StyxLspExtensionDispatcher::new(ext)).establish::<StyxLspHostClient>().await;
    let client = match client { Ok(c) => c, Err(e) => { eprintln!("vext: {e:?}"); std::process::exit(4) } };
    let _ = host.set(client.clone());
    std::future::pending::<()>().await;
}
