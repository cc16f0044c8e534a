//! The asynchronous disk manager under concurrent clients, I/O faults and crashes.
use crate::util::*;
use ferrite::storage::disk::async_disk::config::{DiskManagerConfig, DurabilityLevel, FsyncPolicy};
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use simcore::Plan;
use std::sync::Arc;
use std::time::Duration;

pub const DB: &str = "/sim/t.db";
pub const LOG: &str = "/sim/t.log";

pub fn config(p: &Plan) -> DiskManagerConfig {
    DiskManagerConfig {
        io_threads: p.cfg_or("io_threads", 2) as usize,
        cache_size_mb: p.cfg_or("cache", 16) as usize,
        hot_cache_ratio: p.cfg_or("hot", 10) as f64 / 100.0,
        warm_cache_ratio: p.cfg_or("warm", 30) as f64 / 100.0,
        batch_size: p.cfg_or("batch", 8) as usize,
        direct_io: p.cfg_or("direct", 0) != 0,
        write_buffer_size_mb: p.cfg_or("wbuf", 1) as usize,
        flush_threshold_pages: p.cfg_or("thresh", 16) as usize,
        flush_interval_ms: p.cfg_or("interval", 100) as u64,
        work_stealing_enabled: p.cfg_or("steal", 0) != 0,
        compression_enabled: p.cfg_or("comp", 0) != 0,
        deduplication_enabled: false,
        fsync_policy: match p.cfg_or("fsync", 1) {
            0 => FsyncPolicy::Never,
            1 => FsyncPolicy::OnFlush,
            2 => FsyncPolicy::PerWrite,
            k => FsyncPolicy::Periodic(Duration::from_millis(k as u64)),
        },
        durability_level: match p.cfg_or("dur", 2) {
            0 => DurabilityLevel::None,
            1 => DurabilityLevel::Buffer,
            2 => DurabilityLevel::Sync,
            _ => DurabilityLevel::Durable,
        },
        ..DiskManagerConfig::default()
    }
}
pub const K_WRITE: u64 = 1;
pub const K_READ: u64 = 2;
pub const K_FLUSH: u64 = 3;
pub const K_SHUTDOWN: u64 = 4;

fn val_of(r: std::io::Result<Vec<u8>>, page: u64) -> (u64, u64) {
    match r {
        Ok(d) => (OK, page_val(page, &d)),
        // beyond the end of the file: nothing was ever written there
        Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof || e.to_string().contains("UnexpectedEof") => (OK, ABSENT),
        Err(e) => {
            simcore::log(&format!("{e:?}"));
            (ERR, 0)
        }
    }
}
async fn client(p: &'static Plan, c: u32, m: Arc<AsyncDiskManager>) {
    for (id, o) in ops_of(p, c) {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0) as u64;
        match o.k.as_str() {
            "w" => {
                // value: unique per plan operation
                let v = id + 1;
                inv(c, id, K_WRITE, &[a(0), v]);
                let r = m.write_page(a(0), page_of(a(0), v)).await;
                ret(c, id, if r.is_ok() { OK } else { ERR }, &[]);
            }
            "r" => {
                inv(c, id, K_READ, &[a(0)]);
                let (s, v) = val_of(m.read_page(a(0)).await, a(0));
                ret(c, id, s, &[v]);
            }
            "wb" => {
                // batch write of pages a0..a0+n ; one history operation per page
                let n = a(1).max(1);
                let pages: Vec<(u64, Vec<u8>)> = (0..n).map(|i| (a(0) + i, page_of(a(0) + i, id + 1))).collect();
                for i in 0..n {
                    inv(c, id * 100 + 1000 + i, K_WRITE, &[a(0) + i, id + 1]);
                }
                let r = m.write_pages_batch(pages).await;
                for i in 0..n {
                    ret(c, id * 100 + 1000 + i, if r.is_ok() { OK } else { ERR }, &[]);
                }
            }
            "rb" => {
                let n = a(1).max(1);
                for i in 0..n {
                    inv(c, id * 100 + 1000 + i, K_READ, &[a(0) + i]);
                }
                let r = m.read_pages_batch((0..n).map(|i| a(0) + i).collect()).await;
                for i in 0..n {
                    match &r {
                        Ok(v) if v.len() as u64 == n => {
                            ret(c, id * 100 + 1000 + i, OK, &[page_val(a(0) + i, &v[i as usize])]);
                        }
                        Ok(_) => {
                            ret(c, id * 100 + 1000 + i, OK, &[GARBAGE]);
                        }
                        Err(_) => {
                            ret(c, id * 100 + 1000 + i, ERR, &[0]);
                        }
                    }
                }
            }
            "f" => {
                inv(c, id, K_FLUSH, &[a(0)]);
                let r = match a(0) {
                    0 => m.flush().await,
                    1 => m.force_flush_all().await,
                    _ => m.flush_writes_with_durability().await,
                };
                if let Err(e) = &r {
                    simcore::log(&format!("{e:?}"));
                }
                ret(c, id, if r.is_ok() { OK } else { ERR }, &[]);
            }
            // looking at the manager from outside changes nothing that is promised
            "m" => match a(0) {
                0 => {
                    m.get_cache_stats().await;
                }
                1 => {
                    m.get_dashboard_data();
                }
                2 => {
                    m.health_check();
                    m.get_health_report();
                }
                3 => {
                    m.get_write_buffer_stats().await;
                }
                _ => {
                    m.get_active_alerts();
                    m.get_trend_data(Duration::from_secs(1));
                    m.export_prometheus_metrics();
                    m.get_metrics();
                }
            },
            "s" => tokio::time::sleep(Duration::from_micros(a(0))).await,
            _ => {}
        }
    }
}
pub fn run(p: &'static Plan, phase: u32) {
    let rt = runtime(p);
    rt.block_on(async move {
        let r = AsyncDiskManager::new(DB.into(), LOG.into(), config(p)).await;
        let m = match r {
            Ok(m) => m,
            Err(e) => {
                simcore::log(&format!("open: {e:?}"));
                simcore::record(NOTE, &[1]);
                simcore::done();
            }
        };
        let mut m = Arc::new(m);
        if phase == 0 {
            let m2 = m.clone();
            tasks(p.clients(), move |c| client(p, c, m2.clone())).await;
            simcore::faults(false);
            if p.cfg("endflush") != 0 {
                // faults have stopped: a flush must now succeed
                inv(97, 1 << 42, K_FLUSH, &[1]);
                let r = m.force_flush_all().await;
                ret(97, 1 << 42, if r.is_ok() { OK } else { ERR }, &[]);
            }
            if p.cfg("shutdown") != 0 {
                inv(99, 1 << 40, K_SHUTDOWN, &[]);
                let r = match Arc::get_mut(&mut m) {
                    Some(m) => m.shutdown().await,
                    None => simcore::sched::finish(simcore::shm::OUT_HARNESS, "harness", "manager still shared"),
                };
                ret(99, 1 << 40, if r.is_ok() { OK } else { ERR }, &[]);
                if r.is_ok() && p.cfg("shutdown") == 2 {
                    simcore::crash();
                }
                simcore::done();
            }
            // quiescent reads of every page
            for pg in 0..p.cfg("pages") as u64 {
                let id = (1 << 41) + pg;
                inv(98, id, K_READ, &[pg]);
                let (s, v) = val_of(m.read_page(pg).await, pg);
                ret(98, id, s, &[v]);
            }
            if p.cfg("endcrash") != 0 {
                simcore::crash();
            }
        } else {
            simcore::record(NOTE, &[2]);
            for pg in 0..p.cfg("pages") as u64 {
                let (s, v) = val_of(m.read_page(pg).await, pg);
                simcore::record(STATE, &[pg, s, v]);
            }
        }
        simcore::done();
    });
}
