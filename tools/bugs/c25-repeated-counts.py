import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _rust
PROPERTY = 'C25'
NEEDS = 'interval counts that hold the same number twice in a row'
BREAKS = 'the repeated counts are dropped, so the segments behind them get the wrong number of samples'
EDITS = [('src/lib.rs', '''            self.path_builder.pin_mut(),
            counts,
''', '''            self.path_builder.pin_mut(),
            {
                let mut unique = counts;
                unique.dedup();
                unique
            },
''')]
ID = 'c25-repeated-counts'
globals().update(_rust.rust(r'''
fn main() {
    let mut b = SwervePathBuilder::new();
    log::take();
    b.set_control_interval_counts(vec![4, 5, 5, 4]);
    let t = log::take();
    if t != ["set_control_interval_counts 1 [4, 5, 5, 4]"] { println!("{:?}", t); std::process::exit(1) }
}
'''))
