import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _rust
ID = 'c25-sorted-range'
PROPERTY = 'C25'
NEEDS = 'a segment point-at request whose first index is above its last'
BREAKS = 'the indices arrive exchanged, so the C++ side no longer rejects the request'
EDITS = [('src/lib.rs', '''        crate::ffi::SwervePathBuilder::sgmt_point_at(
            self.path_builder.pin_mut(),
            from_index,
            to_index,
''', '''        crate::ffi::SwervePathBuilder::sgmt_point_at(
            self.path_builder.pin_mut(),
            from_index.min(to_index),
            to_index.max(from_index),
''')]
globals().update(_rust.rust(r'''
fn main() {
    let mut b = SwervePathBuilder::new();
    log::take();
    b.sgmt_point_at(3, 1, 0.5, 0.25, 0.125);
    let t = log::take();
    if t != ["sgmt_point_at 1 3 1 0.5 0.25 0.125"] { println!("{:?}", t); std::process::exit(1) }
}
'''))
