//! Project files in the editor's XML format.
use std::cell::Cell;
thread_local! { static NEXT: Cell<u32> = const { Cell::new(1) }; }
pub fn reset_ids() { NEXT.with(|n| n.set(1)); }
fn id() -> String { NEXT.with(|n| { let i = n.get(); n.set(i + 1); format!("item_{i}") }) }
pub fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\n', "&#xD;") }
pub fn lit(s: &str) -> String { format!("<l>{}</l>", esc(s)) }
pub fn opt(s: &str) -> String { format!("<l><option>{}</option></l>", esc(s)) }
pub fn var(s: &str) -> String { format!("<block collabId=\"{}\" var=\"{}\"/>", id(), esc(s)) }
pub fn blk(sel: &str, args: &[String]) -> String { format!("<block collabId=\"{}\" s=\"{sel}\">{}</block>", id(), args.concat()) }
pub fn list(items: &[String]) -> String { blk("reportNewList", &[format!("<list>{}</list>", items.concat())]) }
pub fn script(stmts: &[String]) -> String { format!("<script>{}</script>", stmts.concat()) }
pub fn top(stmts: &[String]) -> String { format!("<script x=\"10\" y=\"10\">{}</script>", stmts.concat()) }
pub fn try_catch(body: &[String], var: &str, handler: &[String]) -> String { blk("doTryCatch", &[script(body), lit(var), script(handler)]) }
pub fn say(v: String) -> String { blk("bubble", &[v]) }
pub fn repeat(n: u32, body: &[String]) -> String { blk("doRepeat", &[lit(&n.to_string()), script(body)]) }
pub fn wait(secs: &str) -> String { blk("doWait", &[lit(secs)]) }
pub fn rpc(service: &str, rpc: &str, args: &[(String, String)]) -> String {
    let names: Vec<&str> = args.iter().map(|a| a.0.as_str()).collect();
    format!("<block collabId=\"{}\" s=\"getJSFromRPCStruct\" inputNames=\"{}\">{}{}{}</block>", id(), esc(&names.join(";")), lit(service), lit(rpc), args.iter().map(|a| a.1.as_str()).collect::<String>())
}
pub struct Sprite { pub name: String, pub scripts: Vec<String> }
#[derive(Default)]
pub struct Role { pub name: String, pub globals: Vec<(String, String)>, pub msg_types: Vec<(String, Vec<String>)>, pub stage_scripts: Vec<String>, pub sprites: Vec<Sprite> }
impl Role {
    pub fn xml(&self) -> String {
        let vars: String = self.globals.iter().map(|(k, v)| format!("<variable name=\"{}\">{}</variable>", esc(k), lit(v))).collect();
        let types: String = self.msg_types.iter().map(|(n, f)| format!("<messageType><name>{}</name><fields>{}</fields></messageType>", esc(n), f.iter().map(|f| format!("<field>{}</field>", esc(f))).collect::<String>())).collect();
        let sprites: String = self.sprites.iter().enumerate().map(|(i, s)| format!("<sprite name=\"{}\" collabId=\"item_-{}\" idx=\"{}\" x=\"0\" y=\"0\" heading=\"90\" scale=\"1\" volume=\"100\" pan=\"0\" rotation=\"1\" draggable=\"true\" costume=\"0\" color=\"80,80,80,1\" pen=\"tip\" id=\"{}\"><costumes><list struct=\"atomic\" id=\"{}\"></list></costumes><sounds><list struct=\"atomic\" id=\"{}\"></list></sounds><blocks></blocks><variables></variables><scripts>{}</scripts></sprite>", esc(&s.name), i + 2, i + 1, 100 + i * 3, 101 + i * 3, 102 + i * 3, s.scripts.concat())).collect();
        let n = esc(&self.name);
        format!("<role name=\"{n}\"><project collabStartIndex=\"9000\" name=\"{n}\" app=\"NetsBlox 2.1.6, http://netsblox.org\" version=\"2.1.6\"><notes></notes><stage name=\"Stage\" width=\"480\" height=\"360\" collabId=\"item_-1\" costume=\"0\" color=\"255,255,255,1\" tempo=\"60\" threadsafe=\"false\" penlog=\"false\" volume=\"100\" pan=\"0\" lines=\"round\" ternary=\"false\" hyperops=\"true\" codify=\"false\" inheritance=\"false\" sublistIDs=\"false\" scheduled=\"false\" id=\"1\"><costumes><list struct=\"atomic\" id=\"2\"></list></costumes><sounds><list struct=\"atomic\" id=\"3\"></list></sounds><variables></variables><blocks></blocks><messageTypes>{types}</messageTypes><scripts>{}</scripts><sprites>{sprites}</sprites></stage><hidden></hidden><headers></headers><code></code><blocks></blocks><variables>{vars}</variables></project><media name=\"{n}\" app=\"NetsBlox 2.1.6, http://netsblox.org\" version=\"2.1.6\"></media></role>", self.stage_scripts.concat())
    }
}
pub fn room(name: &str, roles: &[Role]) -> String { format!("<room name=\"{}\" app=\"NetsBlox 2.1.6, http://netsblox.org\">{}</room>", esc(name), roles.iter().map(|r| r.xml()).collect::<String>()) }
