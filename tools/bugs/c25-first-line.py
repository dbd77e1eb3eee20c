import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _rust
ID = 'c25-first-line'
PROPERTY = 'C25'
NEEDS = 'a failed generation whose error message spans several lines'
BREAKS = 'the returned message is only the first line of it'
EDITS = [('src/lib.rs', 'Err(msg) => Err(msg.what().to_string()),', 'Err(msg) => Err(msg.what().lines().next().unwrap_or("unknown").to_string()),')]
globals().update(_rust.rust(r'''
fn main() {
    log::OUTCOME.with(|c| *c.borrow_mut() = Some(Err("infeasible\nat waypoint 3".to_string())));
    let mut b = SwervePathBuilder::new();
    match b.generate(false, 1) {
        Err(e) if e == "infeasible\nat waypoint 3" => {}
        r => { println!("{:?}", r); std::process::exit(1) }
    }
}
'''))
