//! Linearizability of a register per key, with operations whose effect is not
//! known. Search over linearization orders with memoisation.
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum Kind {
    /// Writes the value; the answer tells whether the key existed (None: not known).
    Put { value: u64, existed: Option<bool> },
    /// Reads: None when the key does not exist.
    Get { value: Option<u64> },
}

#[derive(Clone, Debug)]
pub struct Op {
    pub invoked: u64,
    /// u64::MAX when not answered.
    pub answered: u64,
    /// The operation may have had no effect.
    pub optional: bool,
    pub kind: Kind,
    pub label: String,
}

pub enum Verdict {
    Linearizable,
    NotLinearizable,
    TooLarge,
}

/// Checks a history of one register which starts absent.
pub fn check(ops: &[Op], budget: usize) -> Verdict {
    let n = ops.len();
    if n > 120 {
        return Verdict::TooLarge;
    }
    let required: u128 = ops.iter().enumerate().filter(|(_, o)| !o.optional).fold(0, |m, (i, _)| m | (1 << i));
    let mut seen: HashSet<(u128, Option<u64>)> = HashSet::new();
    let mut stack: Vec<(u128, Option<u64>)> = vec![(0, None)];
    while let Some((done, value)) = stack.pop() {
        if done & required == required {
            return Verdict::Linearizable;
        }
        if !seen.insert((done, value)) {
            continue;
        }
        if seen.len() > budget {
            return Verdict::TooLarge;
        }
        // No operation may be taken after one that was answered before it began.
        let horizon = (0..n)
            .filter(|i| done & (1 << i) == 0 && required & (1 << i) != 0)
            .map(|i| ops[i].answered)
            .min()
            .unwrap_or(u64::MAX);
        let mut enabled: Vec<usize> = (0..n).filter(|i| done & (1 << i) == 0 && ops[*i].invoked <= horizon).collect();
        // The one that was answered first is tried first.
        enabled.sort_by_key(|i| std::cmp::Reverse(ops[*i].answered));
        // A read of the current value can be taken right away, unless this rules
        // out an optional operation.
        let ready = enabled.iter().copied().find(|i| {
            matches!(&ops[*i].kind, Kind::Get { value: v } if *v == value)
                && !(0..n).any(|j| done & (1 << j) == 0 && ops[j].optional && ops[j].answered < ops[*i].invoked)
        });
        if let Some(i) = ready {
            enabled = vec![i];
        }
        for i in enabled {
            // An optional operation with an end cannot take effect after something
            // that began later than this end.
            let mut mask = done | (1 << i);
            for j in 0..n {
                if j != i && mask & (1 << j) == 0 && ops[j].optional && ops[j].answered < ops[i].invoked {
                    mask |= 1 << j;
                }
            }
            let next = match &ops[i].kind {
                Kind::Put { value: v, existed } => {
                    if existed.is_some_and(|e| e != value.is_some()) {
                        continue;
                    }
                    Some(*v)
                }
                Kind::Get { value: v } => {
                    if *v != value {
                        continue;
                    }
                    value
                }
            };
            stack.push((mask, next));
        }
    }
    Verdict::NotLinearizable
}
