#[no_mangle]
pub fn vp_cli_parse(s: &str) -> Result<Vec<[u8; 3]>, String> { super::parse_color_list(s).map(|l| l.iter().map(|c| c.0).collect()) }
