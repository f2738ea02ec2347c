use dxf::Drawing;
pub fn save(d: &Drawing, bin: bool) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    if bin { d.save_binary(&mut b) } else { d.save(&mut b) }.map_err(|e| format!("save error {:?}", e))?;
    Ok(b)
}
pub fn load(b: &[u8]) -> Result<Drawing, String> {
    Drawing::load(&mut &b[..]).map_err(|e| format!("load error {:?}", e))
}
pub fn enc(bin: bool) -> &'static str {
    if bin {
        "binary"
    } else {
        "text"
    }
}
