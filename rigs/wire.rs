// Messages between controller and runner: whatever one side encodes, the other decodes to the same.
//@main
use crate::http_extensions::axum::Postcard;
use crate::http_extensions::reqwest::{RequestBuilderExt, ResponseExt};
use crate::httpinterface::*;
use axum::extract::FromRequest;
use axum::response::IntoResponse;
use hyper::{Body, HeaderMap, StatusCode};
use reqwest::Wire;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};

fn client() -> reqwest::RequestBuilder {
    reqwest::Client::new().post(reqwest::Url::parse("http://h:8000/x").unwrap())
}
fn request_of(w: Wire) -> hyper::Request<Body> {
    let mut b = hyper::Request::builder().method(w.method).uri(w.path);
    *b.headers_mut().unwrap() = w.headers;
    b.body(Body::from(w.body)).unwrap()
}
/// None: refused; a refusal is a client error
async fn server_gets<T: DeserializeOwned>(w: Wire) -> Option<T> {
    match Postcard::<T>::from_request(request_of(w), &()).await {
        Ok(Postcard(t)) => Some(t),
        Err(r) => {
            let s = r.into_response().status();
            nd::check(s.is_client_error(), "a message that does not decode is not answered with a client error");
            None
        }
    }
}
async fn response_of(r: axum::response::Response) -> (StatusCode, HeaderMap, Vec<u8>) {
    let (p, b) = r.into_parts();
    (p.status, p.headers, hyper::body::to_bytes(b).await.unwrap().to_vec())
}
fn json_wire<T: Serialize>(t: &T) -> Wire {
    let mut w = client().into_wire();
    w.headers.insert(hyper::header::CONTENT_TYPE, hyper::header::HeaderValue::from_static("application/json"));
    w.body = serde_json::to_vec(t).unwrap();
    w
}
async fn up<T: Serialize + DeserializeOwned>(t: &T, json: bool) -> Option<T> {
    let w = if json {
        json_wire(t)
    } else {
        match client().postcard(t) {
            Ok(b) => b.into_wire(),
            Err(_) => {
                nd::fail("a message does not encode");
                return None;
            }
        }
    };
    nd::log(1, w.body.len() as u64);
    server_gets(w).await
}
async fn down<T: Serialize + DeserializeOwned>(t: T, json: bool) -> Option<T> {
    let (s, h, b) = if json {
        let w = json_wire(&t);
        (StatusCode::OK, w.headers, w.body)
    } else {
        response_of(Postcard(t).into_response()).await
    };
    nd::check(s == StatusCode::OK, "a reply does not encode");
    nd::log(2, b.len() as u64);
    reqwest::Response::new(s, h, b).postcard::<T>().await.ok()
}

const CHARS: [&str; 9] = ["a", "\"", "\\", "\n", "\0", "\u{e9}", "\u{1F600}", "\u{2028}", "\u{7f}"];
/// a text of n pieces
fn text(n: usize, name: &str) -> String {
    (0..n).map(|_| CHARS[nd::choose(CHARS.len(), name)]).collect()
}
fn num32(json: bool, name: &str) -> u32 {
    if json {
        [0, 7, 10, 99, 65_535, 65_536, 999_999_999, i32::MAX as u32, u32::MAX][nd::choose(9, name)]
    } else {
        nd::u32(name)
    }
}
fn num64(json: bool, name: &str) -> u64 {
    if json {
        [0, 42, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX][nd::choose(6, name)]
    } else {
        nd::u64(name)
    }
}
fn int(json: bool, name: &str) -> i32 {
    if json {
        [0, 1, -1, -15, 255, i32::MAX, i32::MIN][nd::choose(7, name)]
    } else {
        nd::i32(name)
    }
}
fn blob(n: usize, json: bool, name: &str) -> Vec<u8> {
    (0..n).map(|_| if json { [0, 255][nd::choose(2, name)] } else { nd::u8(name) }).collect()
}
fn start_request(json: bool) -> StartRequest {
    StartRequest { runnertypeid: num32(json, "type"), disconnect_error_message: text(nd::choose(2, "length"), "message") }
}
fn same_start(a: &StartRequest, b: &StartRequest) -> bool {
    a.runnertypeid == b.runnertypeid && a.disconnect_error_message == b.disconnect_error_message
}
fn start_response(json: bool) -> StartResponse {
    let n = nd::choose(3, "words");
    StartResponse {
        transaction_id: num32(json, "transaction"),
        cmdline: (0..n).map(|_| OsString::from_vec(blob(nd::choose(3, "length"), json, "word"))).collect(),
        fd_input: (nd::choose(2, "input") == 1).then(|| (3, blob(nd::choose(3, "length"), json, "input"))),
        ping_interval_msecs: [0, 15_000, u64::MAX][nd::choose(3, "ping interval")],
    }
}
fn same_response(a: &StartResponse, b: &StartResponse) -> bool {
    a.transaction_id == b.transaction_id
        && a.cmdline.len() == b.cmdline.len()
        && a.cmdline.iter().zip(&b.cmdline).all(|(x, y)| x.as_bytes() == y.as_bytes())
        && a.fd_input == b.fd_input
        && a.ping_interval_msecs == b.ping_interval_msecs
}
fn same_end(a: &EndRequest, b: &EndRequest) -> bool {
    a.transaction_id == b.transaction_id
        && a.status == b.status
        && a.stdout == b.stdout
        && a.stderr == b.stderr
        && a.values == b.values
        && match (&a.start_request, &b.start_request) {
            (None, None) => true,
            (Some(x), Some(y)) => same_start(x, y),
            _ => false,
        }
}
fn end_request(json: bool) -> EndRequest {
    let nv = nd::choose(3, "values");
    EndRequest {
        transaction_id: [0, 127, 128, u32::MAX][nd::choose(if json { 1 } else { 4 }, "transaction")],
        status: int(json, "status"),
        stdout: text(nd::choose(2, "length"), "stdout"),
        stderr: text(nd::choose(2, "length"), "stderr"),
        values: (0..nv).map(|i| (0..=i).map(|j| (["k", "", "\u{e9}"][j].to_string(), ["v", "\""][nd::choose(2, "value")].to_string())).collect()).collect(),
        start_request: (nd::choose(2, "more") == 1).then(|| StartRequest { runnertypeid: 63, disconnect_error_message: "x".to_string() }),
    }
}
fn arrived(same: Option<bool>) {
    match same {
        Some(s) => nd::check(s, "a message arrives changed"),
        None => nd::fail("a message that was sent is refused"),
    }
    nd::cover("arrived");
}

/// every kind of request
#[no_mangle]
pub extern "C" fn h_request(kind: u64, json: u64) {
    let j = json == 1;
    tokio::rt::block_on(async move {
        arrived(match kind {
            0 => {
                let m = Ping { transaction_id: num32(j, "transaction") };
                up(&m, j).await.map(|r| r.transaction_id == m.transaction_id)
            }
            1 => {
                let m = BegunRequest { transaction_id: num32(j, "transaction"), host: text(nd::choose(3, "length"), "host"), pid: num32(j, "pid") };
                up(&m, j).await.map(|r| r.transaction_id == m.transaction_id && r.host == m.host && r.pid == m.pid)
            }
            2 => {
                let m = end_request(j);
                up(&m, j).await.map(|r| same_end(&r, &m))
            }
            3 => {
                let m = start_request(j);
                up(&m, j).await.map(|r| same_start(&r, &m))
            }
            4 => {
                let m = StatusRequest { etag: num64(j, "etag"), timemin_ms: [0, 60_000][nd::choose(2, "min")], timeout_ms: num64(j, "timeout") };
                up(&m, j).await.map(|r| r.etag == m.etag && r.timemin_ms == m.timemin_ms && r.timeout_ms == m.timeout_ms)
            }
            5 => {
                let n = nd::choose(3, "jobs");
                let m = MarkSlurmJobCancelationRequest { jobids: (0..n).map(|_| text(nd::choose(3, "length"), "job")).collect() };
                up(&m, j).await.map(|r| r.jobids == m.jobids)
            }
            6 => {
                let m = UpdateRatelimitRequest { per_second: num32(j, "rate") };
                up(&m, j).await.map(|r| r.per_second == m.per_second)
            }
            7 => {
                let m = UpdateRemoteProvisionerInfoRequest { provisioner_info: (nd::choose(2, "some") == 1).then(|| text(nd::choose(3, "length"), "info")) };
                up(&m, j).await.map(|r| r.provisioner_info == m.provisioner_info)
            }
            _ => {
                let m = ShutdownRequest { username: text(nd::choose(3, "length"), "user"), soft: nd::choose(2, "soft") == 1 };
                up(&m, j).await.map(|r| r.username == m.username && r.soft == m.soft)
            }
        });
    });
}

/// every kind of reply
#[no_mangle]
pub extern "C" fn h_reply(kind: u64, json: u64) {
    let j = json == 1;
    tokio::rt::block_on(async move {
        arrived(match kind {
            0 => {
                let m = start_response(j);
                let c = StartResponse { transaction_id: m.transaction_id, cmdline: m.cmdline.clone(), fd_input: m.fd_input.clone(), ping_interval_msecs: m.ping_interval_msecs };
                down(m, j).await.map(|r| same_response(&r, &c))
            }
            1 => {
                let m = (nd::choose(2, "some") == 1).then(|| StartResponse { transaction_id: num32(j, "transaction"), cmdline: vec!["a".into()], fd_input: Some((7, vec![0, 255])), ping_interval_msecs: 15_000 });
                let t = m.as_ref().map(|m| m.transaction_id);
                down(EndResponse { start_response: m }, j).await.map(|r| match (r.start_response, t) {
                    (None, None) => true,
                    (Some(r), Some(t)) => r.transaction_id == t && r.cmdline == vec![OsString::from("a")] && r.fd_input == Some((7, vec![0, 255])) && r.ping_interval_msecs == 15_000,
                    _ => false,
                })
            }
            2 => {
                let n = nd::choose(3, "jobs");
                let l: Vec<String> = (0..n).map(|_| text(nd::choose(3, "length"), "job")).collect();
                down(MarkSlurmJobCancelationReply { jobids: l.clone() }, j).await.map(|r| r.jobids == l)
            }
            _ => {
                let k = nd::choose(3, "queues");
                let queues: HashMap<u64, (u32, u32)> = (0..k).map(|i| ([0, u64::MAX][i], (num32(j, "ready"), [0, 3, u32::MAX][nd::choose(3, "inflight")]))).collect();
                let rate = [0.0, 0.1, 1e9, 2.5e-7][nd::choose(4, "rate")];
                let etag = [0, 127, 1 << 40][nd::choose(3, "etag")];
                let info = (nd::choose(2, "some") == 1).then(|| "\u{e9}\"".to_string());
                let lat: HashMap<String, u32> = (0..nd::choose(2, "latencies")).map(|_| ("/start".to_string(), 3)).collect();
                let m = StatusReply {
                    queues: queues.iter().map(|(k, v)| (*k, StatusQueueReply { num_ready: v.0, num_inflight: v.1 })).collect(),
                    etag,
                    server_metrics: ServerMetrics { p50_latency: lat.clone(), p99_latency: HashMap::new() },
                    rate,
                    num_unready_tasks: 5,
                    num_total_tasks: 300,
                    average_recent_task_runtime: 0.25,
                    ratelimit: u32::MAX,
                    provisioner_info: info.clone(),
                };
                down(m, j).await.map(|r| {
                    r.queues.iter().map(|(k, v)| (*k, (v.num_ready, v.num_inflight))).collect::<HashMap<_, _>>() == queues
                        && r.etag == etag
                        && r.server_metrics.p50_latency == lat
                        && r.server_metrics.p99_latency.is_empty()
                        && r.rate == rate
                        && r.num_unready_tasks == 5
                        && r.num_total_tasks == 300
                        && r.average_recent_task_runtime == 0.25
                        && r.ratelimit == u32::MAX
                        && r.provisioner_info == info
                })
            }
        });
    });
}

/// lengths lo..lo+n of the text, on both sides of the threshold for compression
#[no_mangle]
pub extern "C" fn h_size(dir: u64, lo: u64, n: u64) {
    let len = lo as usize + nd::choose(n as usize, "length");
    let (at, c) = (nd::choose(3, "where"), nd::u8("byte"));
    tokio::rt::block_on(async move {
        let mut b = vec![b'x'; len];
        if len > 0 {
            b[[0, len / 2, len - 1][at]] = c;
        }
        nd::cover(if len > 128 { "long" } else { "short" });
        arrived(if dir == 0 {
            nd::assume(c < 128);
            let m = EndRequest { transaction_id: 1, status: 0, stdout: String::from_utf8(b).unwrap(), stderr: "e".to_string(), values: vec![], start_request: None };
            up(&m, false).await.map(|r| same_end(&r, &m))
        } else {
            let m = StartResponse { transaction_id: 1, cmdline: vec!["a".into()], fd_input: Some((0, b.clone())), ping_interval_msecs: 1 };
            down(m, false).await.map(|r| r.transaction_id == 1 && r.cmdline == vec![OsString::from("a")] && r.fd_input == Some((0, b)) && r.ping_interval_msecs == 1)
        });
    });
}

/// headers that say something else than postcard or JSON, plain or lz4
#[no_mangle]
pub extern "C" fn h_headers(dir: u64) {
    let ct: Option<&'static str> = [None, Some("application/postcard"), Some("application/json"), Some("application/postcard2"), Some("text/html"), Some("")][nd::choose(6, "content type")];
    let ce: Option<&'static str> = [None, Some("lz4"), Some("gzip"), Some("lz"), Some("identity")][nd::choose(5, "encoding")];
    let big = nd::choose(2, "long") == 1;
    let form = nd::choose(2, "form");
    tokio::rt::block_on(async move {
        let m = MarkSlurmJobCancelationRequest { jobids: vec!["j".repeat(if big { 200 } else { 2 })] };
        let mut w = if form == 0 { client().postcard(&m).unwrap().into_wire() } else { json_wire(&m) };
        let was_lz4 = w.headers.contains_key(hyper::header::CONTENT_ENCODING);
        w.headers.remove(hyper::header::CONTENT_TYPE);
        w.headers.remove(hyper::header::CONTENT_ENCODING);
        if let Some(c) = ct {
            w.headers.insert(hyper::header::CONTENT_TYPE, hyper::header::HeaderValue::from_static(c));
        }
        if let Some(c) = ce {
            w.headers.insert(hyper::header::CONTENT_ENCODING, hyper::header::HeaderValue::from_static(c));
        }
        let right = ct == Some(["application/postcard", "application/json"][form]) && ce == was_lz4.then_some("lz4");
        let known = matches!(ct, Some("application/postcard") | Some("application/json")) && matches!(ce, None | Some("lz4"));
        let got = if dir == 0 {
            server_gets::<MarkSlurmJobCancelationRequest>(w).await.map(|r| r.jobids)
        } else {
            reqwest::Response::new(StatusCode::OK, w.headers, w.body).postcard::<MarkSlurmJobCancelationRequest>().await.ok().map(|r| r.jobids)
        };
        if right {
            nd::check(got == Some(m.jobids), "a message with the right headers is refused or changed");
            nd::cover("right headers");
        } else if !known {
            nd::check(got.is_none(), "a message in an unknown format is accepted");
            nd::cover("unknown format");
        }
        nd::log(1, got.is_some() as u64);
    });
}

/// a message cut short or with one byte replaced by any other: decoded or refused, never a crash
#[no_mangle]
pub extern "C" fn h_corrupt(kind: u64, dir: u64, json: u64) {
    let j = json == 1;
    tokio::rt::block_on(async move {
        let end = EndRequest { transaction_id: 300, status: -9, stdout: "o\u{e9}".into(), stderr: "".into(), values: vec![HashMap::from([("k".to_string(), "v".to_string())])], start_request: Some(StartRequest { runnertypeid: 1, disconnect_error_message: "d".into() }) };
        let st = StartResponse { transaction_id: 300, cmdline: vec!["ab".into(), "c".into()], fd_input: Some((5, vec![1, 2])), ping_interval_msecs: 15_000 };
        let big = MarkSlurmJobCancelationRequest { jobids: vec!["j".repeat(140)] };
        let mut w = match (kind, j) {
            (0, false) => client().postcard(&end).unwrap().into_wire(),
            (0, true) => json_wire(&end),
            (1, false) => client().postcard(&st).unwrap().into_wire(),
            (1, true) => json_wire(&st),
            _ => client().postcard(&big).unwrap().into_wire(),
        };
        let n = if kind == 2 { 16 } else { w.body.len() };
        let at = nd::choose(n, "where");
        if nd::choose(2, "cut") == 1 {
            w.body.truncate(at);
            nd::cover("cut");
        } else {
            w.body[at] = nd::u8("byte");
            nd::cover("one byte changed");
        }
        let h = w.headers.clone();
        let b = w.body.clone();
        let ok = match (kind, dir) {
            (0, 0) => server_gets::<EndRequest>(w).await.is_some(),
            (0, _) => reqwest::Response::new(StatusCode::OK, h, b).postcard::<EndRequest>().await.is_ok(),
            (1, 0) => server_gets::<StartResponse>(w).await.is_some(),
            (1, _) => reqwest::Response::new(StatusCode::OK, h, b).postcard::<StartResponse>().await.is_ok(),
            (_, 0) => server_gets::<MarkSlurmJobCancelationRequest>(w).await.is_some(),
            _ => reqwest::Response::new(StatusCode::OK, h, b).postcard::<MarkSlurmJobCancelationRequest>().await.is_ok(),
        };
        nd::log(1, ok as u64);
        nd::cover(if ok { "still decodes" } else { "refused" });
    });
}

/// any n bytes at all
#[no_mangle]
pub extern "C" fn h_bytes(kind: u64, n: u64, json: u64) {
    let b: Vec<u8> = (0..n).map(|_| nd::u8("byte")).collect();
    tokio::rt::block_on(async move {
        let mut w = json_wire(&0u8);
        if json == 0 {
            w = client().postcard(&0u8).unwrap().into_wire();
        }
        w.body = b;
        let ok = match kind {
            0 => server_gets::<EndRequest>(w).await.is_some(),
            1 => server_gets::<StartRequest>(w).await.is_some(),
            2 => server_gets::<Ping>(w).await.is_some(),
            _ => {
                let h = w.headers.clone();
                reqwest::Response::new(StatusCode::OK, h, w.body).postcard::<StartResponse>().await.is_ok()
            }
        };
        nd::log(1, ok as u64);
        nd::cover(if ok { "still decodes" } else { "refused" });
    });
}
