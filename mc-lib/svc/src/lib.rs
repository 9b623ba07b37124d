//! The service does not compile; nothing that needs it can be decided.
fn absent() -> ! {
    eprintln!("the service does not compile");
    std::process::exit(2)
}
pub fn main() {
    absent()
}
#[no_mangle]
pub fn __marine_export_set_root(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_insert_cert_raw(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_insert_cert(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_all_certs(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_all_certs_from(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_host_certs(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_host_certs_from(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_weight(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_weight_from(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_trust_bytes(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_issue_trust(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_verify_trust(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_add_trust(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_get_revocation_bytes(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_issue_revocation(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_revoke(_: &str) -> String {
    absent()
}
#[no_mangle]
pub fn __marine_export_export_revocations(_: &str) -> String {
    absent()
}
