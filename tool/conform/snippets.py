# Rust bodies (each a block that evaluates to Vec<i64>); v, w, s, t … are bound in the prelude
PRE = "let v: Vec<i64> = vec![5, 3, 9, 3, 1]; let w: Vec<i64> = vec![1, 2, 3]; let e: Vec<i64> = Vec::new(); let s = \"ab,c,,d\"; let o: Option<i64> = Some(4); let n: Option<i64> = None; let r: Result<i64, i64> = Ok(7); let x: Result<i64, i64> = Err(8);"
S = r'''
vec![v.len() as i64, e.is_empty() as i64]
v.iter().map(|a| a * 2).collect()
v.iter().copied().filter(|a| *a > 2).collect()
v.iter().rev().copied().collect()
v.iter().copied().skip(1).step_by(2).collect()
v.iter().copied().take(2).collect()
v.iter().zip(w.iter()).map(|(a, b)| a + b).collect()
v.iter().chain(w.iter()).copied().collect()
v.iter().enumerate().map(|(i, a)| i as i64 * 10 + a).collect()
v.iter().copied().take_while(|a| *a != 9).collect()
v.iter().copied().skip_while(|a| *a != 9).collect()
v.iter().copied().map_while(|a| if a < 9 { Some(a + 1) } else { None }).collect()
v.iter().copied().filter_map(|a| if a > 3 { Some(a) } else { None }).collect()
w.iter().flat_map(|a| vec![*a, *a * 10]).collect()
vec![vec![1], vec![], vec![2, 3]].into_iter().flatten().collect()
w.iter().scan(0, |acc, a| { *acc += a; Some(*acc) }).collect()
vec![v.iter().sum::<i64>(), w.iter().product::<i64>()]
vec![*v.iter().max().unwrap(), *v.iter().min().unwrap()]
vec![v.iter().position(|a| *a == 3).unwrap() as i64, v.iter().rposition(|a| *a == 3).unwrap() as i64]
vec![*v.iter().max_by_key(|a| **a % 5).unwrap(), *v.iter().min_by_key(|a| **a % 5).unwrap()]
vec![*v.iter().max_by(|a, b| a.cmp(b)).unwrap(), *v.iter().min_by(|a, b| b.cmp(a)).unwrap()]
vec![v.iter().any(|a| *a == 9) as i64, v.iter().all(|a| *a > 0) as i64, v.iter().all(|a| *a > 1) as i64]
vec![v.iter().fold(0, |a, b| a * 2 + b), v.iter().copied().reduce(|a, b| a - b).unwrap()]
{ let (a, b): (Vec<i64>, Vec<i64>) = v.iter().partition(|a| **a > 3); let mut a = a; a.push(-1); a.extend(b); a }
{ let (a, b): (Vec<i64>, Vec<i64>) = v.iter().map(|a| (*a, a + 1)).unzip(); let mut a = a; a.extend(b); a }
vec![v.iter().count() as i64, *v.iter().last().unwrap(), *v.iter().nth(2).unwrap()]
{ let mut i = v.iter(); i.next(); i.next_back(); i.copied().collect() }
{ let mut i = v.iter().peekable(); let mut out = vec![]; while let Some(a) = i.next() { if let Some(b) = i.peek() { out.push(a * 100 + **b); } } out }
{ let mut i = v.iter().copied().peekable(); let mut out = vec![]; while let Some(a) = i.next_if(|a| *a != 9) { out.push(a); } out.push(i.next().unwrap()); out }
{ let mut a = v.clone(); a.sort(); a }
{ let mut a = v.clone(); a.sort_unstable(); a.dedup(); a }
{ let mut a = v.clone(); a.sort_by(|p, q| q.cmp(p)); a }
{ let mut a = v.clone(); a.sort_by_key(|p| std::cmp::Reverse(*p)); a }
{ let mut a = v.clone(); a.sort_by_key(|p| p % 4); a }
{ let mut a = v.clone(); a.reverse(); a }
{ let mut a = v.clone(); a.push(7); a.pop(); a.insert(1, 42); a.remove(0); a }
{ let mut a = v.clone(); a.swap(0, 2); a.truncate(4); a }
{ let mut a = v.clone(); let b = a.swap_remove(1); a.push(b); a }
{ let mut a = v.clone(); a.retain(|p| *p != 3); a }
{ let mut a = v.clone(); a.dedup_by_key(|p| *p / 4); a }
{ let mut a = v.clone(); let d: Vec<i64> = a.drain(1..3).collect(); a.push(-1); a.extend(d); a }
{ let mut a = v.clone(); let d: Vec<i64> = a.drain(..).collect(); a.extend(d.into_iter().rev()); a }
{ let mut a = v.clone(); let d = a.split_off(2); a.push(-1); a.extend_from_slice(&d); a }
{ let mut a = v.clone(); a.append(&mut w.clone()); a }
{ let mut a = v.clone(); a.clear(); a.resize(3, 6); a }
{ let mut a = v.clone(); a.rotate_left(2); a }
{ let mut a = v.clone(); a.fill(2); a }
{ let mut a = v.clone(); for p in a.iter_mut() { *p += 1; } a }
{ let mut a = v.clone(); if let Some(p) = a.last_mut() { *p = 99; } if let Some(p) = a.first_mut() { *p = 98; } if let Some(p) = a.get_mut(1) { *p = 97; } a }
vec![*v.first().unwrap(), *v.last().unwrap(), v[2], *v.get(1).unwrap(), v.get(9).is_none() as i64]
v[1..3].to_vec()
v[..2].iter().chain(v[3..].iter()).copied().collect()
v.chunks(2).map(|c| c.iter().sum::<i64>()).collect()
v.chunks_exact(2).map(|c| c[0] * 10 + c[1]).collect()
v.windows(2).map(|c| c[1] - c[0]).collect()
{ let (a, b) = v.split_at(2); let mut a = a.to_vec(); a.push(-1); a.extend(b); a }
match v.split_first() { Some((a, b)) => { let mut c = b.to_vec(); c.push(*a); c } None => vec![] }
match v.split_last() { Some((a, b)) => { let mut c = b.to_vec(); c.insert(0, *a); c } None => vec![] }
v.split(|a| *a == 3).map(|p| p.len() as i64).collect()
vec![v.contains(&9) as i64, v.starts_with(&[5, 3]) as i64, v.ends_with(&[1]) as i64]
{ let a = [1i64, 3, 5, 7]; vec![a.binary_search(&5).unwrap() as i64, a.binary_search(&4).unwrap_err() as i64, a.partition_point(|p| *p < 4) as i64] }
{ let a = [1i64, 3, 5, 7]; vec![a.binary_search_by(|p| p.cmp(&7)).unwrap() as i64, a.binary_search_by_key(&6, |p| p + 1).unwrap() as i64] }
vec![vec![1, 2], vec![3]].concat()
v.repeat(2)
{ let mut a = vec![1, 2, 3, 4]; a.copy_within(0..2, 2); a }
{ let mut a = vec![0; 3]; a.copy_from_slice(&w); a }
vec![(v == vec![5, 3, 9, 3, 1]) as i64, (v < w) as i64, (v > w) as i64]
match v.cmp(&w) { std::cmp::Ordering::Less => vec![-1], std::cmp::Ordering::Equal => vec![0], std::cmp::Ordering::Greater => vec![1] }
vec![v.iter().eq([5i64, 3, 9, 3, 1].iter()) as i64, v.iter().lt(w.iter()) as i64]
vec![v.is_sorted() as i64, w.is_sorted() as i64]
vec![o.unwrap_or(0), n.unwrap_or(1), o.map_or(0, |a| a + 1), n.map_or(2, |a| a + 1), n.map_or_else(|| 3, |a| a + 1)]
vec![o.and_then(|a| if a > 3 { Some(a * 2) } else { None }).unwrap_or(-1), o.filter(|a| *a > 9).unwrap_or(-2), n.or(Some(6)).unwrap(), n.or_else(|| Some(5)).unwrap()]
vec![o.is_some_and(|a| a == 4) as i64, n.is_none_or(|a| a == 4) as i64, o.is_none_or(|a| a == 5) as i64, o.xor(n).unwrap()]
vec![o.ok_or(1).unwrap_or(-1), n.ok_or(1).unwrap_err(), o.ok_or_else(|| 2).unwrap(), o.zip(Some(3)).map(|(a, b)| a * b).unwrap()]
{ let mut a = Some(3); let b = a.take(); let c = a.replace(5); let d = a.insert(7); *d += 1; vec![b.unwrap(), c.is_none() as i64, a.unwrap()] }
{ let mut a: Option<i64> = None; *a.get_or_insert(3) += 1; *a.get_or_insert_with(|| 9) += 1; vec![a.unwrap()] }
{ let mut a = Some(3); if let Some(p) = a.as_mut() { *p = 4; } vec![a.unwrap(), a.as_ref().map(|p| *p + 1).unwrap(), a.iter().sum::<i64>(), a.into_iter().count() as i64] }
{ let a: Option<Option<i64>> = Some(Some(2)); vec![a.flatten().unwrap(), Some(1).unwrap_or_default(), n.unwrap_or_default()] }
{ let mut a = Some(6); let b = a.take_if(|p| *p > 5); vec![b.unwrap(), a.is_none() as i64] }
vec![(o > n) as i64, (o == Some(4)) as i64, o.max(n).unwrap(), o.min(n).is_none() as i64, Some(3).cmp(&Some(4)) as i64]
vec![r.unwrap_or(0), x.unwrap_or(1), r.map(|a| a + 1).unwrap(), x.map_err(|a| a + 1).unwrap_err(), r.map_or(0, |a| a * 2), x.map_or_else(|e| e, |a| a)]
vec![r.ok().unwrap(), x.ok().is_none() as i64, x.err().unwrap(), r.is_ok_and(|a| a == 7) as i64, x.is_err_and(|a| a == 9) as i64, x.unwrap_or_else(|e| e * 2), x.unwrap_or_default()]
vec![r.and_then(|a| if a > 7 { Ok(a) } else { Err(3) }).unwrap_err(), x.or_else(|e| if e > 1 { Ok::<i64, i64>(e) } else { Err(e) }).unwrap(), r.and(x).unwrap_err(), x.or(r).unwrap()]
vec![r.iter().count() as i64, x.iter().count() as i64, r.as_ref().copied().unwrap(), r.inspect(|_| ()).unwrap()]
{ let a: Result<Vec<i64>, i64> = vec![Ok(1), Err(2), Ok(3), Err(4)].into_iter().collect(); vec![a.unwrap_err()] }
{ let a: Option<Vec<i64>> = vec![Some(1), Some(2)].into_iter().collect(); a.unwrap() }
{ let a: Option<i64> = vec![Some(1), None].into_iter().sum(); vec![a.is_none() as i64] }
{ let a: Result<i64, i64> = vec![Ok(1), Ok(5)].into_iter().sum(); vec![a.unwrap()] }
{ let a: Result<Option<i64>, i64> = Some(r).transpose(); let b: Option<Result<i64, i64>> = Ok(n).transpose(); vec![a.unwrap().unwrap(), b.is_none() as i64] }
{ let a: Result<i64, i64> = w.iter().try_fold(0i64, |acc, p| if *p < 3 { Ok(acc + p) } else { Err(acc) }); vec![a.unwrap_err()] }
{ let a: Option<i64> = w.iter().try_fold(0i64, |acc, p| acc.checked_add(*p)); vec![a.unwrap()] }
{ let mut c = 0; let a: Result<(), i64> = w.iter().try_for_each(|p| { c += p; if *p == 2 { Err(*p) } else { Ok(()) } }); vec![c, a.unwrap_err()] }
{ let mut c = 0; w.iter().for_each(|p| c = c * 10 + p); vec![c] }
{ let mut c = vec![]; let _ = w.iter().inspect(|p| c.push(**p)).count(); c }
vec![w.iter().find(|a| **a > 1).copied().unwrap(), w.iter().find_map(|a| if *a > 2 { Some(a * 7) } else { None }).unwrap()]
w.iter().cycle().take(5).copied().collect()
std::iter::repeat(4i64).take(3).collect()
std::iter::once(4i64).chain(std::iter::empty()).chain(Some(2)).collect()
std::iter::successors(Some(1i64), |a| if *a < 50 { Some(a * 3) } else { None }).collect()
{ let mut k = 0; std::iter::from_fn(|| { k += 1; if k < 4 { Some(k) } else { None } }).collect() }
std::iter::repeat_with(|| 3i64).take(2).collect()
(0..4).map(|a| a as i64).collect()
(1..=4).rev().map(|a| a as i64).collect()
(0..10).step_by(3).map(|a| a as i64).collect()
vec![(1..5).contains(&4) as i64, (1..=5).contains(&5) as i64, (1..5).contains(&5) as i64, (3..3).is_empty() as i64, (2..7).len() as i64]
{ let mut c = 0i64; for i in 0..v.len() { if v[i] == 9 { continue; } c += v[i]; if c > 8 { break; } } vec![c] }
{ let mut c = vec![]; 'o: for i in 0..3i64 { for j in 0..3i64 { if j == 2 { continue 'o; } if i == 2 { break 'o; } c.push(i * 10 + j); } } c }
{ let mut i = 0; let a = loop { i += 1; if i == 5 { break i * 2; } }; vec![a] }
vec![5i64.saturating_sub(9), i64::MAX.saturating_add(1), 250u8.saturating_add(9) as i64, 3u8.saturating_sub(5) as i64, 250u8.wrapping_add(9) as i64]
vec![5i64.pow(3), (-7i64).rem_euclid(3), (-7i64).div_euclid(3), 7i64.abs_diff(-2) as i64, (-5i64).abs(), 9i64.signum(), 17u64.div_ceil(5) as i64]
vec![3i64.max(4), 3i64.min(4), 9i64.clamp(1, 5), 12u32.leading_zeros() as i64, 12u32.trailing_zeros() as i64, 7u32.count_ones() as i64, 5u32.next_power_of_two() as i64, 8u32.is_power_of_two() as i64]
vec![250u8.checked_add(9).is_none() as i64, 3u8.checked_sub(1).unwrap() as i64, 9i64.checked_div(0).is_none() as i64, 9i64.checked_rem(4).unwrap(), 250u8.overflowing_add(9).1 as i64, 3u64.checked_mul(4).unwrap() as i64]
vec![u8::try_from(300i64).is_err() as i64, u8::try_from(30i64).unwrap() as i64, i64::from(7u32), 300i64 as u8 as i64, -1i64 as u32 as i64, usize::try_from(-1i64).is_err() as i64]
vec![1i64 << 5, 77 >> 2, 6 & 3, 6 | 3, 6 ^ 3, !6]
vec![std::cmp::max(2, 3), std::cmp::min(2, 3), (2, 3).cmp(&(2, 1)) as i64, (1, 'a') .lt(&(1, 'b')) as i64, 3.cmp(&3).then(4.cmp(&2)) as i64, 3.cmp(&2).reverse() as i64, 1.cmp(&1).then_with(|| 1.cmp(&2)) as i64, 1.cmp(&2).is_lt() as i64, 2.partial_cmp(&1).unwrap() as i64]
{ let mut a = 1; let mut b = 2; std::mem::swap(&mut a, &mut b); let c = std::mem::replace(&mut a, 9); let d = std::mem::take(&mut b); vec![a, b, c, d] }
s.split(',').map(|p| p.len() as i64).collect()
s.splitn(2, ',').map(|p| p.len() as i64).collect()
s.chars().map(|c| c as i64).collect()
s.bytes().map(|c| c as i64).collect()
s.char_indices().filter(|(_, c)| *c == ',').map(|(i, _)| i as i64).collect()
vec![s.len() as i64, s.find(',').unwrap() as i64, s.rfind(',').unwrap() as i64, s.contains("c,") as i64, s.starts_with("ab") as i64, s.is_empty() as i64]
vec!["  x ".trim().len() as i64, "xxaxx".trim_matches('x').len() as i64, "12".parse::<i64>().unwrap(), "1x".parse::<i64>().is_err() as i64, "-3".parse::<i64>().unwrap()]
vec![s.strip_prefix("ab").unwrap().len() as i64, s.strip_suffix("x").is_none() as i64, s.split_once(',').unwrap().1.len() as i64, s[1..4].len() as i64, s.replace(",", "").len() as i64]
vec!["b".cmp("a") as i64, ("ab" < "b") as i64, ("a".to_string() == "a") as i64, "Ab".eq_ignore_ascii_case("aB") as i64, "Ab".to_lowercase().starts_with('a') as i64]
{ let mut a = String::new(); a.push('x'); a.push_str("yz"); a += "w"; vec![a.len() as i64, a.ends_with("zw") as i64] }
{ let a = format!("{}-{}", 12, "q"); vec![a.len() as i64, (a == "12-q") as i64] }
{ let a = format!("{:05}", 42); vec![(a == "00042") as i64] }
{ let a: String = vec!["a", "b"].join("+"); let b: String = ["x", "y"].concat(); vec![a.len() as i64, b.len() as i64] }
{ let a = 42.to_string(); vec![a.len() as i64, a.parse::<i64>().unwrap()] }
{ let mut m = std::collections::BTreeMap::new(); m.insert(3i64, 30i64); m.insert(1, 10); m.insert(2, 20); m.insert(1, 11); let mut a: Vec<i64> = m.keys().copied().collect(); a.extend(m.values()); a.push(m.len() as i64); a }
{ let mut m = std::collections::BTreeMap::new(); for p in &v { *m.entry(*p).or_insert(0i64) += 1; } m.into_iter().map(|(k, c)| k * 10 + c).collect() }
{ let mut m: std::collections::BTreeMap<i64, Vec<i64>> = Default::default(); for (i, p) in v.iter().enumerate() { m.entry(*p).or_default().push(i as i64); } m.into_values().flatten().collect() }
{ let m: std::collections::BTreeMap<i64, i64> = v.iter().map(|p| (*p, p + 1)).collect(); vec![*m.get(&9).unwrap(), m.contains_key(&4) as i64, *m.first_key_value().unwrap().0, *m.last_key_value().unwrap().1, m.range(3..9).count() as i64, m.range(4..).map(|p| p.0).sum::<i64>(), m.range(..=3).map(|p| p.0).sum::<i64>()] }
{ let mut m: std::collections::BTreeMap<i64, i64> = v.iter().map(|p| (*p, p + 1)).collect(); let a = m.remove(&9); let b = m.pop_first().unwrap(); m.retain(|k, _| *k != 3); let mut c: Vec<i64> = m.into_keys().collect(); c.push(a.unwrap()); c.push(b.0); c }
{ let mut m: std::collections::BTreeMap<i64, i64> = v.iter().map(|p| (*p, p + 1)).collect(); let hi = m.split_off(&4); let mut a: Vec<i64> = m.into_keys().collect(); a.push(-1); a.extend(hi.into_keys()); a }
{ let mut m: std::collections::BTreeMap<i64, i64> = w.iter().map(|p| (*p, p + 1)).collect(); for p in m.values_mut() { *p *= 2; } if let Some(p) = m.get_mut(&2) { *p = 0; } m.entry(3).and_modify(|p| *p += 5).or_insert(1); m.entry(7).and_modify(|p| *p += 5).or_insert_with(|| 1); m.into_values().collect() }
{ let a: std::collections::BTreeSet<i64> = v.iter().copied().collect(); let b: std::collections::BTreeSet<i64> = w.iter().copied().collect(); let mut c: Vec<i64> = a.union(&b).copied().collect(); c.push(-1); c.extend(a.intersection(&b)); c.push(-1); c.extend(a.difference(&b)); c.push(a.is_subset(&b) as i64); c }
{ let mut a: std::collections::BTreeSet<i64> = v.iter().copied().collect(); let i = a.insert(3); let j = a.insert(4); let k = a.remove(&9); let mut c: Vec<i64> = a.iter().copied().collect(); c.push(i as i64); c.push(j as i64); c.push(k as i64); c.push(*a.first().unwrap()); c.push(*a.last().unwrap()); c }
{ let mut m = std::collections::HashMap::new(); m.insert(1i64, 2i64); m.insert(5, 6); let a = m.insert(1, 3); vec![a.unwrap(), *m.get(&1).unwrap(), m.len() as i64, m.contains_key(&5) as i64, m.remove(&5).unwrap(), m.get(&5).is_none() as i64, m.get(&9).copied().unwrap_or(-1)] }
{ let a: std::collections::HashSet<i64> = v.iter().copied().collect(); vec![a.len() as i64, a.contains(&9) as i64, a.contains(&2) as i64] }
{ let mut seen = std::collections::HashSet::new(); v.iter().copied().filter(|p| seen.insert(*p)).collect() }
{ let mut m: std::collections::HashMap<i64, i64> = v.iter().map(|p| (*p, 1)).collect(); m.retain(|k, _| *k > 3); let mut a: Vec<i64> = m.into_keys().collect(); a.sort(); a }
{ let mut m: std::collections::HashMap<i64, Vec<i64>> = std::collections::HashMap::new(); for p in &v { m.entry(p % 2).or_insert_with(Vec::new).push(*p); } let mut a = m.remove(&1).unwrap(); a.extend(m.remove(&0).unwrap_or_default()); a }
{ let mut m: std::collections::HashMap<i64, i64> = Default::default(); if let std::collections::hash_map::Entry::Vacant(e) = m.entry(4) { e.insert(5); } match m.entry(4) { std::collections::hash_map::Entry::Occupied(mut e) => { *e.get_mut() += 1; } std::collections::hash_map::Entry::Vacant(_) => {} } vec![m[&4]] }
{ let mut d: std::collections::VecDeque<i64> = w.iter().copied().collect(); d.push_front(0); d.push_back(9); let a = d.pop_front().unwrap(); let b = d.pop_back().unwrap(); let mut c: Vec<i64> = d.iter().copied().collect(); c.push(a); c.push(b); c.push(d[1]); c.push(*d.front().unwrap()); c.push(*d.back().unwrap()); c }
{ let mut d: std::collections::VecDeque<i64> = w.iter().copied().collect(); d.extend([7, 8]); d.truncate(4); d.retain(|p| *p != 2); d.rotate_left(1); d.into_iter().collect() }
{ let mut d: std::collections::VecDeque<i64> = w.iter().copied().collect(); let a: Vec<i64> = d.drain(..2).collect(); let mut b: Vec<i64> = d.into(); b.extend(a); b }
{ let mut h = std::collections::BinaryHeap::new(); for p in &v { h.push(*p); } let mut a = vec![]; while let Some(p) = h.pop() { a.push(p); } a }
{ let mut h = std::collections::BinaryHeap::new(); for p in &v { h.push(std::cmp::Reverse(*p)); } let mut a = vec![h.peek().unwrap().0]; while let Some(std::cmp::Reverse(p)) = h.pop() { a.push(p); } a }
{ let h: std::collections::BinaryHeap<i64> = v.iter().copied().collect(); h.into_sorted_vec() }
{ let a: Box<[i64]> = v.clone().into_boxed_slice(); let b: std::sync::Arc<[i64]> = std::sync::Arc::from(w.clone()); a.iter().chain(b.iter()).copied().collect() }
{ let a = std::rc::Rc::new(std::cell::RefCell::new(vec![1i64])); a.borrow_mut().push(2); let b = std::rc::Rc::clone(&a); b.borrow_mut().push(3); let c = a.borrow().clone(); c }
{ let a = std::cell::Cell::new(3i64); a.set(a.get() + 1); vec![a.replace(9), a.take()] }
{ let a: [i64; 3] = [1, 2, 3]; let b = a.map(|p| p * 2); let [p, q, t] = b; vec![p, q, t] }
match v.as_slice() { [a, b, rest @ ..] => vec![*a, *b, rest.len() as i64], _ => vec![] }
match v.as_slice() { [a, .., b] => vec![*a, *b], _ => vec![] }
match w.as_slice() { [] => vec![0], [a] => vec![*a], [_, m @ .., _] => m.to_vec() }
{ let a: &[i64] = &v; let mut it = a.iter(); let mut out = vec![]; while let Some(p) = it.next() { out.push(*p); if it.len() == 2 { break; } } out }
{ let (mut a, mut b) = (0i64, 0i64); for (i, p) in v.iter().enumerate() { if i % 2 == 0 { a += p } else { b += p } } vec![a, b] }
{ let f = |a: i64| move |b: i64| a * 10 + b; vec![f(3)(4)] }
{ fn g(f: &dyn Fn(i64) -> i64) -> i64 { f(2) } let k = 5; vec![g(&|a| a + k)] }
{ let a: u64 = u64::from_le_bytes([1, 2, 0, 0, 0, 0, 0, 0]); let b = 258u16.to_be_bytes(); vec![a as i64, b[0] as i64, b[1] as i64] }
{ let a = if let (Some(p), Ok(q)) = (o, r) { p + q } else { 0 }; let b = match (n, x) { (None, Err(p)) if p > 7 => p, _ => 1 }; vec![a, b] }
{ let mut out = vec![]; let mut st = v.clone(); while let Some(p) = st.pop() { if p == 9 { st.push(2); continue; } out.push(p); } out }
{ let Some(p) = o else { return vec![] }; let q = (|| { let z = n?; Some(z) })().unwrap_or(1); vec![p, q] }
v.iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().rev().collect()
v.iter().copied().min_by_key(|p| (p - 4).abs()).into_iter().collect()
{ let mut a = v.clone(); a.sort_by(|p, q| (p % 3).cmp(&(q % 3)).then_with(|| q.cmp(p))); a }
{ let mut it = v.chunk_by(|a, b| a > b); let mut out = vec![]; while let Some(c) = it.next() { out.push(c.len() as i64); } out }
vec![v.iter().copied().max().map_or(0, |p| p + 1), e.iter().copied().max().map_or(0, |p| p + 1)]
{ let mut a = v.clone(); a.splice(1..3, [7, 8, 6]); a }
{ let mut a = v.clone(); if let Some(i) = a.iter().position(|p| *p == 9) { a.remove(i); } a }
v.iter().rev().skip_while(|p| **p < 5).copied().collect()
v.rchunks(2).map(|c| c.len() as i64).collect()
{ let mut a: Vec<(i64, i64)> = v.iter().copied().zip(0..).collect(); a.sort(); a.into_iter().map(|(p, q)| p * 10 + q).collect() }
vec![bool::then(v.len() > 2, || 4i64).unwrap_or(0), (v.len() > 9).then_some(4i64).unwrap_or(0)]
{ let a = v.iter().copied().map(Some).chain([None]).collect::<Vec<_>>(); a.iter().flatten().copied().collect() }
{ let mut a = w.clone(); a.extend(v.iter().filter(|p| !w.contains(p))); a }
{ let mut i = w.iter().copied(); let a = i.by_ref().take(2).sum::<i64>(); vec![a, i.next().unwrap()] }
{ let mut i = w.iter().copied().fuse(); let _ = i.next(); vec![i.len() as i64, i.size_hint().0 as i64] }
std::array::from_fn::<i64, 4, _>(|i| i as i64 * 2).to_vec()
{ let mut a = vec![0i64; 4]; a[1..3].copy_from_slice(&[7, 8]); a[3] = a[1] + a[2]; a }
{ let (l, r2) = (v.iter().take(2), v.iter().skip(2)); r2.chain(l).copied().collect() }
'''.strip().split('\n')
