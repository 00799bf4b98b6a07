use super::*;
/// strip_connection_headers on a request's (or a response's) header map
#[allow(missing_docs)]
pub fn strip(headers: &mut HeaderMap, request: bool) {
    strip_connection_headers(headers, if request { MessageKind::Request } else { MessageKind::Response })
}
