import subprocess,os,shutil,re
TESTS={
 'staticmut':('bad','static mut N: usize = 0;','unsafe { N += 1; } '),
 'atomic':('bad','static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);','N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);'),
 'tls':('bad','thread_local! { static N: std::cell::Cell<usize> = std::cell::Cell::new(0); }','N.with(|n| n.set(n.get() + 1));'),
 'tlsconst':('bad','thread_local! { static N: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) }; }','N.with(|n| n.borrow_mut().push(1));'),
 'mutex':('bad','static N: std::sync::Mutex<usize> = std::sync::Mutex::new(0);','*N.lock().unwrap() += 1;'),
 'println':('bad','','println!("x");'),
 'dbg':('bad','','let _ = dbg!(1);'),
 'env':('bad','','if std::env::var("X").is_ok() { return val as u8; }'),
 'now':('bad','','let _ = std::time::Instant::now();'),
 'fnmut':('bad','','static mut L: u8 = 0; unsafe { L = val; }'),
 'lazymutex':('bad','static N: std::sync::LazyLock<std::sync::Mutex<Vec<u8>>> = std::sync::LazyLock::new(|| std::sync::Mutex::new(vec![]));','N.lock().unwrap().push(val);'),
 'hashiter':('bad','','let mut h = std::collections::HashMap::new(); h.insert(1u8, 2u8); let _ = h.iter().next();'),
 'extern':('bad','extern "C" { fn getpid() -> i32; }','let _ = unsafe { getpid() };'),
 'ptrfmt':('bad','','let _ = format!("{:p}", &val);'),
 'oncelock':('ok','static N: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();','let _ = N.get_or_init(|| vec![0; 4]).len();'),
 'lazylock':('ok','static N: std::sync::LazyLock<Vec<u8>> = std::sync::LazyLock::new(|| vec![1]);','let _ = N.len();'),
 'table':('ok','static N: [u8; 4] = [1; 4];','let _ = N[(val & 3) as usize];'),
 'tlsonce':('ok','thread_local! { static N: std::cell::OnceCell<Vec<u8>> = std::cell::OnceCell::new(); }','N.with(|n| n.get_or_init(|| vec![1]).len());'),
 'localcell':('ok','','let c = std::cell::Cell::new(0); c.set(1);'),
 'rc':('ok','','let c = std::rc::Rc::new(std::cell::RefCell::new(0)); *c.borrow_mut() += 1;'),
 'hashlookup':('ok','','let mut h = std::collections::HashMap::new(); h.insert(1u8, 2u8); let _ = h.get(&val);'),
 'iocursor':('ok','','use std::io::Write; let mut v: Vec<u8> = vec![]; let _ = v.write_all(b"x"); let _ = write!(v, "y");'),
}
for k,(exp,top,ins) in TESTS.items():
    shutil.rmtree('/tmp/sc',ignore_errors=True)
    subprocess.run(['cp','-a','/repo','/tmp/sc'])
    p='/tmp/sc/src/number.rs'; s=open(p).read()
    i=s.index('pub fn add_zero_behind_every_bit_u8'); j=s.index('{',i)+1
    s=s[:i]+top+'\n'+s[i:j]+' '+ins+' '+s[j:]
    open(p,'w').write(s)
    r=subprocess.run(['python3','check.py','C30','quick'],env=dict(os.environ,MA_REPO='/tmp/sc'),capture_output=True,text=True,cwd='/verif')
    got={0:'ok',1:'bad'}.get(r.returncode,'err')
    print(k,exp,got,'' if got==exp else '*****', [l for l in r.stdout.splitlines() if 'lint:' in l or 'ERROR' in l or 'incon' in l][:2])
