//! Levels printed by `harness survey`: 85 percent of the runs reach them.

pub const GA_LEVELS: &[f64] = &[
    1.3e-1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: None }, wide: false, n: 100, iters: 80; median 2.3e-3 random 4.9e1
    9.5e-3, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: Some(1) }, wide: false, n: 100, iters: 80; median 9.2e-5 random 5.2e1
    7.6e-3, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: Some(2) }, wide: false, n: 100, iters: 80; median 2.8e-5 random 5.2e1
    5.9e-3, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: Some(5) }, wide: false, n: 100, iters: 80; median 3.1e-5 random 5.2e1
    2.2e-1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: None }, wide: false, n: 100, iters: 80; median 5.8e-3 random 5.6e1
    2.2e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: Some(1) }, wide: false, n: 100, iters: 80; median 3.1e-4 random 5.9e1
    1.3e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: Some(2) }, wide: false, n: 100, iters: 80; median 2.1e-4 random 5.9e1
    1.5e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: Some(5) }, wide: false, n: 100, iters: 80; median 6.7e-5 random 5.6e1
    9.4e-1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: None }, wide: false, n: 100, iters: 80; median 3.7e-2 random 5.1e1
    3.5e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: Some(1) }, wide: false, n: 100, iters: 80; median 1.2e-1 random 5.4e1
    5.9e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: Some(2) }, wide: false, n: 100, iters: 80; median 2.0e-1 random 5.2e1
    1.3e1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: Some(5) }, wide: false, n: 100, iters: 80; median 3.9e-1 random 5.2e1
    2.4e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: None }, wide: false, n: 100, iters: 80; median 7.7e-2 random 5.3e1
    6.3e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: Some(1) }, wide: false, n: 100, iters: 80; median 9.1e-2 random 5.1e1
    1.1e1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: Some(2) }, wide: false, n: 100, iters: 80; median 2.5e-1 random 5.1e1
    1.3e1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: Some(5) }, wide: false, n: 100, iters: 80; median 4.7e-1 random 5.3e1
    4.1e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: None }, wide: false, n: 100, iters: 80; median 6.6e1 random 3.6e3
    2.2e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: Some(1) }, wide: false, n: 100, iters: 80; median 1.4e1 random 3.6e3
    1.1e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: Some(2) }, wide: false, n: 100, iters: 80; median 5.6e0 random 3.7e3
    1.8e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: Some(5) }, wide: false, n: 100, iters: 80; median 6.6e0 random 3.8e3
    2.8e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: None }, wide: false, n: 100, iters: 80; median 6.8e1 random 3.9e3
    1.5e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: Some(1) }, wide: false, n: 100, iters: 80; median 1.8e1 random 3.9e3
    8.0e1, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: Some(2) }, wide: false, n: 100, iters: 80; median 1.2e1 random 4.0e3
    7.6e1, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: Some(5) }, wide: false, n: 100, iters: 80; median 7.2e0 random 3.9e3
    9.6e1, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: None }, wide: false, n: 100, iters: 80; median 1.6e1 random 3.5e3
    2.5e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: Some(1) }, wide: false, n: 100, iters: 80; median 1.6e1 random 3.8e3
    3.9e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: Some(2) }, wide: false, n: 100, iters: 80; median 2.9e1 random 3.6e3
    7.0e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: Some(5) }, wide: false, n: 100, iters: 80; median 5.0e1 random 3.7e3
    2.6e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: None }, wide: false, n: 100, iters: 80; median 3.2e1 random 3.6e3
    4.4e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: Some(1) }, wide: false, n: 100, iters: 80; median 4.0e1 random 3.7e3
    4.1e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: Some(2) }, wide: false, n: 100, iters: 80; median 5.4e1 random 3.6e3
    7.1e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: Some(5) }, wide: false, n: 100, iters: 80; median 6.5e1 random 3.7e3
    1.6e-1, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: None }, wide: false, n: 100, iters: 80; median 5.4e-8 random 1.0e0
    9.8e-4, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: Some(1) }, wide: false, n: 100, iters: 80; median 2.5e-12 random 1.0e0
    2.3e-4, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: Some(2) }, wide: false, n: 100, iters: 80; median 7.8e-12 random 1.0e0
    2.4e-2, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: Some(5) }, wide: false, n: 100, iters: 80; median 4.7e-7 random 1.0e0
    5.6e-3, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: None }, wide: false, n: 100, iters: 80; median 6.8e-7 random 1.1e0
    2.0e-4, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: Some(1) }, wide: false, n: 100, iters: 80; median 6.9e-11 random 1.0e0
    5.5e-4, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: Some(2) }, wide: false, n: 100, iters: 80; median 5.5e-8 random 1.1e0
    1.5e-2, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: Some(5) }, wide: false, n: 100, iters: 80; median 8.1e-6 random 1.1e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: None }, wide: false, n: 100, iters: 80; median 1.2e-3 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: Some(1) }, wide: false, n: 100, iters: 80; median 2.1e-2 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: Some(2) }, wide: false, n: 100, iters: 80; median 1.8e-2 random 1.1e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: Some(5) }, wide: false, n: 100, iters: 80; median 9.6e-2 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: None }, wide: false, n: 100, iters: 80; median 1.8e-3 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: Some(1) }, wide: false, n: 100, iters: 80; median 1.1e-2 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: Some(2) }, wide: false, n: 100, iters: 80; median 1.7e-2 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: Some(5) }, wide: false, n: 100, iters: 80; median 8.4e-2 random 1.1e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: None }, wide: false, n: 100, iters: 80; median 1.5e1 random 7.1e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: Some(1) }, wide: false, n: 100, iters: 80; median 3.6e-1 random 7.4e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: Some(2) }, wide: false, n: 100, iters: 80; median 2.8e-2 random 7.2e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: Some(5) }, wide: false, n: 100, iters: 80; median 2.8e-2 random 8.4e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: None }, wide: false, n: 100, iters: 80; median 8.0e1 random 8.7e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: Some(1) }, wide: false, n: 100, iters: 80; median 1.1e2 random 7.3e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: Some(2) }, wide: false, n: 100, iters: 80; median 1.2e2 random 8.3e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: Some(5) }, wide: false, n: 100, iters: 80; median 2.9e1 random 7.9e0
    2.7e-1, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: None }, wide: false, n: 100, iters: 80; median 3.1e-3 random 7.4e0
    6.3e-1, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: Some(1) }, wide: false, n: 100, iters: 80; median 8.2e-3 random 6.9e0
    1.7e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: Some(2) }, wide: false, n: 100, iters: 80; median 1.5e-2 random 6.6e0
    4.1e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: Some(5) }, wide: false, n: 100, iters: 80; median 4.7e-2 random 8.2e0
    1.6e-1, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: None }, wide: false, n: 100, iters: 80; median 3.1e-3 random 6.9e0
    3.7e-1, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: Some(1) }, wide: false, n: 100, iters: 80; median 4.1e-3 random 6.7e0
    1.1e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: Some(2) }, wide: false, n: 100, iters: 80; median 1.3e-2 random 7.5e0
    2.3e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: Some(5) }, wide: false, n: 100, iters: 80; median 3.7e-2 random 7.5e0
    1.2e2, // fun: Paraboloid, dim: 10, alg: Ga { cross: Mean, tour: Some(5) }, wide: false, n: 300, iters: 150; median 1.6e1 random 4.6e3
    2.0e2, // fun: Paraboloid, dim: 10, alg: Ga { cross: Bit, tour: Some(5) }, wide: false, n: 300, iters: 150; median 2.7e1 random 4.7e3
    2.3e2, // fun: Paraboloid, dim: 10, alg: Ga { cross: Exp, tour: Some(5) }, wide: false, n: 300, iters: 150; median 5.4e1 random 4.6e3
    1.3e2, // fun: Schwefel, dim: 4, alg: Ga { cross: Mean, tour: Some(5) }, wide: false, n: 300, iters: 150; median 9.2e-1 random 2.4e2
    1.4e0, // fun: Schwefel, dim: 4, alg: Ga { cross: Bit, tour: Some(5) }, wide: false, n: 300, iters: 150; median 4.1e-2 random 2.4e2
    1.3e0, // fun: Schwefel, dim: 4, alg: Ga { cross: Exp, tour: Some(5) }, wide: false, n: 300, iters: 150; median 4.3e-2 random 2.3e2
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Ga { cross: Mean, tour: Some(5) }, wide: false, n: 300, iters: 150; median 3.3e-13 random 1.7e-3
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Ga { cross: Bit, tour: Some(5) }, wide: false, n: 300, iters: 150; median 2.8e-3 random 1.5e-3
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Ga { cross: Exp, tour: Some(5) }, wide: false, n: 300, iters: 150; median 3.2e-3 random 1.6e-3
    2.0e-1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: None }, wide: true, n: 100, iters: 80; median 2.0e-3 random 4.9e1
    3.3e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: Some(1) }, wide: true, n: 100, iters: 80; median 7.6e-5 random 5.2e1
    1.1e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: Some(2) }, wide: true, n: 100, iters: 80; median 1.8e-5 random 5.1e1
    8.4e-3, // fun: Paraboloid, dim: 3, alg: Ga { cross: Mean, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.5e-5 random 4.9e1
    2.7e-1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: None }, wide: true, n: 100, iters: 80; median 5.3e-3 random 5.2e1
    2.5e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: Some(1) }, wide: true, n: 100, iters: 80; median 9.4e-5 random 5.4e1
    2.2e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: Some(2) }, wide: true, n: 100, iters: 80; median 5.4e-5 random 5.3e1
    2.1e-2, // fun: Paraboloid, dim: 3, alg: Ga { cross: Geo, tour: Some(5) }, wide: true, n: 100, iters: 80; median 4.0e-5 random 5.4e1
    4.4e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: None }, wide: true, n: 100, iters: 80; median 2.4e-1 random 5.1e1
    8.9e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: Some(1) }, wide: true, n: 100, iters: 80; median 4.8e-1 random 5.4e1
    9.5e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: Some(2) }, wide: true, n: 100, iters: 80; median 6.4e-1 random 4.8e1
    2.7e1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Bit, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.7e0 random 5.1e1
    3.0e0, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: None }, wide: true, n: 100, iters: 80; median 7.1e-2 random 5.4e1
    1.7e1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: Some(1) }, wide: true, n: 100, iters: 80; median 1.6e-1 random 5.2e1
    1.9e1, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: Some(2) }, wide: true, n: 100, iters: 80; median 4.7e-1 random 5.1e1
    f64::NAN, // fun: Paraboloid, dim: 3, alg: Ga { cross: Exp, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.1e0 random 5.2e1
    4.6e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: None }, wide: true, n: 100, iters: 80; median 6.4e1 random 3.6e3
    2.5e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: Some(1) }, wide: true, n: 100, iters: 80; median 2.8e1 random 3.6e3
    1.6e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: Some(2) }, wide: true, n: 100, iters: 80; median 1.2e1 random 3.5e3
    2.4e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Mean, tour: Some(5) }, wide: true, n: 100, iters: 80; median 7.5e0 random 3.6e3
    3.6e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: None }, wide: true, n: 100, iters: 80; median 7.2e1 random 3.7e3
    1.9e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: Some(1) }, wide: true, n: 100, iters: 80; median 2.0e1 random 3.9e3
    1.3e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: Some(2) }, wide: true, n: 100, iters: 80; median 1.4e1 random 3.9e3
    1.4e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Geo, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.1e1 random 3.7e3
    2.3e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: None }, wide: true, n: 100, iters: 80; median 3.4e1 random 3.6e3
    5.4e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: Some(1) }, wide: true, n: 100, iters: 80; median 4.6e1 random 3.6e3
    7.4e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: Some(2) }, wide: true, n: 100, iters: 80; median 8.2e1 random 3.6e3
    1.2e3, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Bit, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.6e2 random 3.4e3
    3.7e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: None }, wide: true, n: 100, iters: 80; median 4.4e1 random 3.8e3
    4.7e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: Some(1) }, wide: true, n: 100, iters: 80; median 5.1e1 random 3.6e3
    5.7e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: Some(2) }, wide: true, n: 100, iters: 80; median 7.0e1 random 3.7e3
    8.3e2, // fun: Ellipsoid, dim: 5, alg: Ga { cross: Exp, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.5e2 random 3.5e3
    8.3e-2, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: None }, wide: true, n: 100, iters: 80; median 1.1e-8 random 1.0e0
    3.5e-4, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: Some(1) }, wide: true, n: 100, iters: 80; median 0.0e0 random 1.1e0
    1.6e-3, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: Some(2) }, wide: true, n: 100, iters: 80; median 5.1e-13 random 1.0e0
    3.0e-2, // fun: Rastrigin, dim: 2, alg: Ga { cross: Mean, tour: Some(5) }, wide: true, n: 100, iters: 80; median 3.2e-7 random 1.0e0
    8.4e-3, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: None }, wide: true, n: 100, iters: 80; median 2.0e-7 random 1.0e0
    5.2e-4, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: Some(1) }, wide: true, n: 100, iters: 80; median 1.5e-12 random 1.0e0
    2.2e-3, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: Some(2) }, wide: true, n: 100, iters: 80; median 4.5e-9 random 1.0e0
    4.1e-2, // fun: Rastrigin, dim: 2, alg: Ga { cross: Geo, tour: Some(5) }, wide: true, n: 100, iters: 80; median 8.3e-6 random 1.1e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: None }, wide: true, n: 100, iters: 80; median 2.8e-2 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: Some(1) }, wide: true, n: 100, iters: 80; median 1.1e-1 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: Some(2) }, wide: true, n: 100, iters: 80; median 2.3e-1 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Bit, tour: Some(5) }, wide: true, n: 100, iters: 80; median 9.9e-1 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: None }, wide: true, n: 100, iters: 80; median 8.1e-3 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: Some(1) }, wide: true, n: 100, iters: 80; median 9.7e-3 random 1.1e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: Some(2) }, wide: true, n: 100, iters: 80; median 2.4e-2 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Ga { cross: Exp, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.1e-1 random 9.7e-1
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: None }, wide: true, n: 100, iters: 80; median 3.0e1 random 7.7e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: Some(1) }, wide: true, n: 100, iters: 80; median 1.8e0 random 7.5e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: Some(2) }, wide: true, n: 100, iters: 80; median 3.6e-1 random 6.8e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Mean, tour: Some(5) }, wide: true, n: 100, iters: 80; median 7.3e-1 random 7.1e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: None }, wide: true, n: 100, iters: 80; median 1.2e2 random 7.9e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: Some(1) }, wide: true, n: 100, iters: 80; median 1.2e2 random 7.6e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: Some(2) }, wide: true, n: 100, iters: 80; median 1.0e2 random 8.6e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Geo, tour: Some(5) }, wide: true, n: 100, iters: 80; median 4.8e1 random 8.4e0
    1.9e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: None }, wide: true, n: 100, iters: 80; median 1.7e-2 random 6.3e0
    1.9e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: Some(1) }, wide: true, n: 100, iters: 80; median 4.5e-2 random 7.6e0
    3.8e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: Some(2) }, wide: true, n: 100, iters: 80; median 7.4e-2 random 7.0e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Bit, tour: Some(5) }, wide: true, n: 100, iters: 80; median 1.9e-1 random 7.3e0
    3.2e-1, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: None }, wide: true, n: 100, iters: 80; median 5.1e-3 random 7.0e0
    1.0e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: Some(1) }, wide: true, n: 100, iters: 80; median 1.5e-2 random 6.6e0
    1.6e0, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: Some(2) }, wide: true, n: 100, iters: 80; median 4.6e-2 random 8.2e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Ga { cross: Exp, tour: Some(5) }, wide: true, n: 100, iters: 80; median 9.7e-2 random 6.6e0
    1.3e2, // fun: Paraboloid, dim: 10, alg: Ga { cross: Mean, tour: Some(5) }, wide: true, n: 300, iters: 150; median 2.1e1 random 4.5e3
    5.3e2, // fun: Paraboloid, dim: 10, alg: Ga { cross: Bit, tour: Some(5) }, wide: true, n: 300, iters: 150; median 6.7e1 random 4.6e3
    3.2e2, // fun: Paraboloid, dim: 10, alg: Ga { cross: Exp, tour: Some(5) }, wide: true, n: 300, iters: 150; median 7.1e1 random 4.6e3
    f64::NAN, // fun: Schwefel, dim: 4, alg: Ga { cross: Mean, tour: Some(5) }, wide: true, n: 300, iters: 150; median 3.0e1 random 2.4e2
    2.0e1, // fun: Schwefel, dim: 4, alg: Ga { cross: Bit, tour: Some(5) }, wide: true, n: 300, iters: 150; median 3.1e-1 random 2.3e2
    1.5e0, // fun: Schwefel, dim: 4, alg: Ga { cross: Exp, tour: Some(5) }, wide: true, n: 300, iters: 150; median 5.9e-2 random 2.3e2
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Ga { cross: Mean, tour: Some(5) }, wide: true, n: 300, iters: 150; median 2.7e-7 random 1.8e-3
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Ga { cross: Bit, tour: Some(5) }, wide: true, n: 300, iters: 150; median 6.7e-3 random 1.4e-3
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Ga { cross: Exp, tour: Some(5) }, wide: true, n: 300, iters: 150; median 5.2e-3 random 1.7e-3
];

pub const PSO_LEVELS: &[f64] = &[
    f64::NAN, // fun: Paraboloid, dim: 1, alg: Pso("classic"), wide: false, n: 50, iters: 80; median 8.4e-5 random 2.8e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("canonical-example"), wide: false, n: 50, iters: 80; median 6.2e-13 random 2.4e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("canonical-schwefel"), wide: false, n: 50, iters: 80; median 6.7e-8 random 2.7e-4
    8.0e-5, // fun: Paraboloid, dim: 1, alg: Pso("canonical-usual"), wide: false, n: 50, iters: 80; median 5.9e-6 random 2.5e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("inertia-constant"), wide: false, n: 50, iters: 80; median 1.4e-12 random 2.9e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("inertia-linear"), wide: false, n: 50, iters: 80; median 7.8e-13 random 3.2e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("negative-example"), wide: false, n: 50, iters: 80; median 6.2e-8 random 3.5e-4
    6.9e-6, // fun: Paraboloid, dim: 1, alg: Pso("negative-mixed"), wide: false, n: 50, iters: 80; median 8.3e-7 random 2.8e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("negative-current"), wide: false, n: 50, iters: 80; median 7.4e-10 random 2.9e-4
    f64::NAN, // fun: Paraboloid, dim: 3, alg: Pso("classic"), wide: false, n: 50, iters: 80; median 1.1e1 random 4.9e1
    4.3e0, // fun: Paraboloid, dim: 3, alg: Pso("canonical-example"), wide: false, n: 50, iters: 80; median 3.2e-3 random 4.6e1
    1.4e-1, // fun: Paraboloid, dim: 3, alg: Pso("canonical-schwefel"), wide: false, n: 50, iters: 80; median 3.5e-2 random 4.9e1
    5.1e0, // fun: Paraboloid, dim: 3, alg: Pso("canonical-usual"), wide: false, n: 50, iters: 80; median 1.6e0 random 4.9e1
    1.1e-6, // fun: Paraboloid, dim: 3, alg: Pso("inertia-constant"), wide: false, n: 50, iters: 80; median 1.3e-7 random 5.0e1
    1.1e-6, // fun: Paraboloid, dim: 3, alg: Pso("inertia-linear"), wide: false, n: 50, iters: 80; median 1.2e-9 random 4.7e1
    1.3e-1, // fun: Paraboloid, dim: 3, alg: Pso("negative-example"), wide: false, n: 50, iters: 80; median 3.1e-2 random 4.6e1
    2.7e-1, // fun: Paraboloid, dim: 3, alg: Pso("negative-mixed"), wide: false, n: 50, iters: 80; median 1.1e-1 random 4.6e1
    2.5e-5, // fun: Paraboloid, dim: 3, alg: Pso("negative-current"), wide: false, n: 50, iters: 80; median 5.1e-6 random 4.3e1
    f64::NAN, // fun: Ellipsoid, dim: 5, alg: Pso("classic"), wide: false, n: 50, iters: 80; median 7.0e2 random 3.3e3
    f64::NAN, // fun: Ellipsoid, dim: 5, alg: Pso("canonical-example"), wide: false, n: 50, iters: 80; median 3.3e2 random 3.2e3
    2.5e1, // fun: Ellipsoid, dim: 5, alg: Pso("canonical-schwefel"), wide: false, n: 50, iters: 80; median 8.5e0 random 3.4e3
    3.9e2, // fun: Ellipsoid, dim: 5, alg: Pso("canonical-usual"), wide: false, n: 50, iters: 80; median 2.1e2 random 3.2e3
    3.5e-4, // fun: Ellipsoid, dim: 5, alg: Pso("inertia-constant"), wide: false, n: 50, iters: 80; median 1.1e-4 random 3.2e3
    6.4e-6, // fun: Ellipsoid, dim: 5, alg: Pso("inertia-linear"), wide: false, n: 50, iters: 80; median 2.1e-6 random 3.4e3
    2.5e1, // fun: Ellipsoid, dim: 5, alg: Pso("negative-example"), wide: false, n: 50, iters: 80; median 9.3e0 random 3.3e3
    1.5e1, // fun: Ellipsoid, dim: 5, alg: Pso("negative-mixed"), wide: false, n: 50, iters: 80; median 8.2e0 random 3.3e3
    1.6e-3, // fun: Ellipsoid, dim: 5, alg: Pso("negative-current"), wide: false, n: 50, iters: 80; median 4.1e-4 random 3.3e3
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Pso("classic"), wide: false, n: 50, iters: 80; median 3.9e-1 random 1.0e0
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Pso("canonical-example"), wide: false, n: 50, iters: 80; median 5.1e-3 random 1.0e0
    1.8e-2, // fun: Rastrigin, dim: 2, alg: Pso("canonical-schwefel"), wide: false, n: 50, iters: 80; median 1.9e-3 random 1.0e0
    3.3e-1, // fun: Rastrigin, dim: 2, alg: Pso("canonical-usual"), wide: false, n: 50, iters: 80; median 6.2e-2 random 9.7e-1
    1.1e-6, // fun: Rastrigin, dim: 2, alg: Pso("inertia-constant"), wide: false, n: 50, iters: 80; median 7.4e-9 random 9.9e-1
    1.1e-6, // fun: Rastrigin, dim: 2, alg: Pso("inertia-linear"), wide: false, n: 50, iters: 80; median 4.3e-11 random 1.1e0
    1.5e-2, // fun: Rastrigin, dim: 2, alg: Pso("negative-example"), wide: false, n: 50, iters: 80; median 1.8e-3 random 1.0e0
    1.4e-2, // fun: Rastrigin, dim: 2, alg: Pso("negative-mixed"), wide: false, n: 50, iters: 80; median 4.0e-3 random 1.0e0
    3.2e-3, // fun: Rastrigin, dim: 2, alg: Pso("negative-current"), wide: false, n: 50, iters: 80; median 5.6e-4 random 1.0e0
    2.0e0, // fun: Schwefel, dim: 2, alg: Pso("classic"), wide: false, n: 50, iters: 80; median 3.5e-1 random 6.2e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("canonical-example"), wide: false, n: 50, iters: 80; median 1.2e2 random 7.6e0
    1.7e-2, // fun: Schwefel, dim: 2, alg: Pso("canonical-schwefel"), wide: false, n: 50, iters: 80; median 1.7e-3 random 6.7e0
    1.0e0, // fun: Schwefel, dim: 2, alg: Pso("canonical-usual"), wide: false, n: 50, iters: 80; median 4.1e-2 random 6.1e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("inertia-constant"), wide: false, n: 50, iters: 80; median 6.5e-8 random 7.3e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("inertia-linear"), wide: false, n: 50, iters: 80; median 5.5e-8 random 6.6e0
    2.0e-2, // fun: Schwefel, dim: 2, alg: Pso("negative-example"), wide: false, n: 50, iters: 80; median 2.2e-3 random 6.7e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("negative-mixed"), wide: false, n: 50, iters: 80; median 5.3e-2 random 7.2e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("negative-current"), wide: false, n: 50, iters: 80; median 5.1e-3 random 6.7e0
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Pso("classic"), wide: false, n: 50, iters: 80; median 3.2e-3 random 7.6e-3
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Pso("canonical-example"), wide: false, n: 50, iters: 80; median 5.3e-3 random 8.6e-3
    1.2e-3, // fun: Rosenbrock, dim: 2, alg: Pso("canonical-schwefel"), wide: false, n: 50, iters: 80; median 2.1e-4 random 8.1e-3
    3.7e-3, // fun: Rosenbrock, dim: 2, alg: Pso("canonical-usual"), wide: false, n: 50, iters: 80; median 1.0e-3 random 9.1e-3
    5.6e-6, // fun: Rosenbrock, dim: 2, alg: Pso("inertia-constant"), wide: false, n: 50, iters: 80; median 4.9e-7 random 7.9e-3
    2.4e-6, // fun: Rosenbrock, dim: 2, alg: Pso("inertia-linear"), wide: false, n: 50, iters: 80; median 2.0e-7 random 9.3e-3
    1.2e-3, // fun: Rosenbrock, dim: 2, alg: Pso("negative-example"), wide: false, n: 50, iters: 80; median 2.5e-4 random 8.3e-3
    2.2e-4, // fun: Rosenbrock, dim: 2, alg: Pso("negative-mixed"), wide: false, n: 50, iters: 80; median 5.8e-5 random 9.8e-3
    1.2e-4, // fun: Rosenbrock, dim: 2, alg: Pso("negative-current"), wide: false, n: 50, iters: 80; median 3.5e-5 random 8.5e-3
    8.5e2, // fun: Paraboloid, dim: 12, alg: Pso("classic"), wide: false, n: 120, iters: 200; median 6.1e2 random 6.7e3
    2.1e3, // fun: Paraboloid, dim: 12, alg: Pso("canonical-example"), wide: false, n: 120, iters: 200; median 8.8e2 random 6.8e3
    4.7e1, // fun: Paraboloid, dim: 12, alg: Pso("canonical-schwefel"), wide: false, n: 120, iters: 200; median 2.4e1 random 6.7e3
    5.3e2, // fun: Paraboloid, dim: 12, alg: Pso("canonical-usual"), wide: false, n: 120, iters: 200; median 3.6e2 random 6.8e3
    1.1e-6, // fun: Paraboloid, dim: 12, alg: Pso("inertia-constant"), wide: false, n: 120, iters: 200; median 3.8e-10 random 6.7e3
    1.1e-6, // fun: Paraboloid, dim: 12, alg: Pso("inertia-linear"), wide: false, n: 120, iters: 200; median 1.0e-11 random 6.7e3
    4.9e1, // fun: Paraboloid, dim: 12, alg: Pso("negative-example"), wide: false, n: 120, iters: 200; median 2.4e1 random 6.7e3
    3.6e1, // fun: Paraboloid, dim: 12, alg: Pso("negative-mixed"), wide: false, n: 120, iters: 200; median 2.3e1 random 6.8e3
    1.1e-6, // fun: Paraboloid, dim: 12, alg: Pso("negative-current"), wide: false, n: 120, iters: 200; median 3.1e-11 random 6.8e3
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("classic"), wide: false, n: 120, iters: 200; median 3.0e1 random 2.1e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("canonical-example"), wide: false, n: 120, iters: 200; median 4.9e2 random 2.1e2
    3.8e-2, // fun: Schwefel, dim: 4, alg: Pso("canonical-schwefel"), wide: false, n: 120, iters: 200; median 2.7e-3 random 2.3e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("canonical-usual"), wide: false, n: 120, iters: 200; median 1.8e0 random 2.2e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("inertia-constant"), wide: false, n: 120, iters: 200; median 1.2e2 random 2.2e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("inertia-linear"), wide: false, n: 120, iters: 200; median 1.1e-7 random 2.1e2
    6.6e-2, // fun: Schwefel, dim: 4, alg: Pso("negative-example"), wide: false, n: 120, iters: 200; median 3.1e-3 random 2.3e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("negative-mixed"), wide: false, n: 120, iters: 200; median 1.2e2 random 2.2e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("negative-current"), wide: false, n: 120, iters: 200; median 1.2e2 random 2.2e2
    f64::NAN, // fun: Rosenbrock, dim: 3, alg: Pso("classic"), wide: false, n: 120, iters: 200; median 1.0e-1 random 2.1e-1
    f64::NAN, // fun: Rosenbrock, dim: 3, alg: Pso("canonical-example"), wide: false, n: 120, iters: 200; median 3.5e-1 random 2.3e-1
    5.9e-2, // fun: Rosenbrock, dim: 3, alg: Pso("canonical-schwefel"), wide: false, n: 120, iters: 200; median 1.5e-2 random 2.2e-1
    1.1e-1, // fun: Rosenbrock, dim: 3, alg: Pso("canonical-usual"), wide: false, n: 120, iters: 200; median 3.9e-2 random 2.1e-1
    1.6e-3, // fun: Rosenbrock, dim: 3, alg: Pso("inertia-constant"), wide: false, n: 120, iters: 200; median 3.0e-4 random 2.3e-1
    1.3e-3, // fun: Rosenbrock, dim: 3, alg: Pso("inertia-linear"), wide: false, n: 120, iters: 200; median 2.0e-4 random 2.2e-1
    4.7e-2, // fun: Rosenbrock, dim: 3, alg: Pso("negative-example"), wide: false, n: 120, iters: 200; median 1.2e-2 random 2.4e-1
    4.1e-3, // fun: Rosenbrock, dim: 3, alg: Pso("negative-mixed"), wide: false, n: 120, iters: 200; median 1.4e-3 random 2.1e-1
    2.9e-3, // fun: Rosenbrock, dim: 3, alg: Pso("negative-current"), wide: false, n: 120, iters: 200; median 1.0e-3 random 2.1e-1
    f64::NAN, // fun: Paraboloid, dim: 1, alg: Pso("classic"), wide: true, n: 50, iters: 80; median 5.3e-5 random 2.9e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("canonical-example"), wide: true, n: 50, iters: 80; median 1.9e-19 random 2.3e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("canonical-schwefel"), wide: true, n: 50, iters: 80; median 6.1e-8 random 2.1e-4
    7.3e-5, // fun: Paraboloid, dim: 1, alg: Pso("canonical-usual"), wide: true, n: 50, iters: 80; median 5.5e-6 random 2.8e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("inertia-constant"), wide: true, n: 50, iters: 80; median 1.5e-13 random 2.4e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("inertia-linear"), wide: true, n: 50, iters: 80; median 6.6e-16 random 2.7e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("negative-example"), wide: true, n: 50, iters: 80; median 6.2e-8 random 2.5e-4
    8.0e-6, // fun: Paraboloid, dim: 1, alg: Pso("negative-mixed"), wide: true, n: 50, iters: 80; median 1.0e-6 random 2.9e-4
    1.1e-6, // fun: Paraboloid, dim: 1, alg: Pso("negative-current"), wide: true, n: 50, iters: 80; median 7.2e-10 random 3.2e-4
    f64::NAN, // fun: Paraboloid, dim: 3, alg: Pso("classic"), wide: true, n: 50, iters: 80; median 1.2e1 random 4.7e1
    2.3e0, // fun: Paraboloid, dim: 3, alg: Pso("canonical-example"), wide: true, n: 50, iters: 80; median 1.1e-3 random 4.6e1
    1.3e-1, // fun: Paraboloid, dim: 3, alg: Pso("canonical-schwefel"), wide: true, n: 50, iters: 80; median 3.2e-2 random 5.0e1
    5.4e0, // fun: Paraboloid, dim: 3, alg: Pso("canonical-usual"), wide: true, n: 50, iters: 80; median 2.1e0 random 4.9e1
    1.1e-6, // fun: Paraboloid, dim: 3, alg: Pso("inertia-constant"), wide: true, n: 50, iters: 80; median 1.2e-7 random 4.6e1
    1.1e-6, // fun: Paraboloid, dim: 3, alg: Pso("inertia-linear"), wide: true, n: 50, iters: 80; median 1.2e-9 random 4.9e1
    1.3e-1, // fun: Paraboloid, dim: 3, alg: Pso("negative-example"), wide: true, n: 50, iters: 80; median 3.0e-2 random 4.9e1
    2.3e-1, // fun: Paraboloid, dim: 3, alg: Pso("negative-mixed"), wide: true, n: 50, iters: 80; median 1.1e-1 random 5.0e1
    3.2e-5, // fun: Paraboloid, dim: 3, alg: Pso("negative-current"), wide: true, n: 50, iters: 80; median 6.1e-6 random 4.7e1
    1.3e3, // fun: Ellipsoid, dim: 5, alg: Pso("classic"), wide: true, n: 50, iters: 80; median 6.9e2 random 3.5e3
    1.6e3, // fun: Ellipsoid, dim: 5, alg: Pso("canonical-example"), wide: true, n: 50, iters: 80; median 3.3e2 random 3.3e3
    2.4e1, // fun: Ellipsoid, dim: 5, alg: Pso("canonical-schwefel"), wide: true, n: 50, iters: 80; median 8.7e0 random 3.4e3
    4.4e2, // fun: Ellipsoid, dim: 5, alg: Pso("canonical-usual"), wide: true, n: 50, iters: 80; median 2.0e2 random 3.3e3
    3.8e-4, // fun: Ellipsoid, dim: 5, alg: Pso("inertia-constant"), wide: true, n: 50, iters: 80; median 1.2e-4 random 3.2e3
    6.3e-6, // fun: Ellipsoid, dim: 5, alg: Pso("inertia-linear"), wide: true, n: 50, iters: 80; median 2.3e-6 random 3.4e3
    2.6e1, // fun: Ellipsoid, dim: 5, alg: Pso("negative-example"), wide: true, n: 50, iters: 80; median 9.3e0 random 3.2e3
    1.7e1, // fun: Ellipsoid, dim: 5, alg: Pso("negative-mixed"), wide: true, n: 50, iters: 80; median 9.1e0 random 3.2e3
    1.4e-3, // fun: Ellipsoid, dim: 5, alg: Pso("negative-current"), wide: true, n: 50, iters: 80; median 3.8e-4 random 3.4e3
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Pso("classic"), wide: true, n: 50, iters: 80; median 4.0e-1 random 9.4e-1
    f64::NAN, // fun: Rastrigin, dim: 2, alg: Pso("canonical-example"), wide: true, n: 50, iters: 80; median 5.3e-3 random 1.0e0
    1.8e-2, // fun: Rastrigin, dim: 2, alg: Pso("canonical-schwefel"), wide: true, n: 50, iters: 80; median 2.0e-3 random 1.0e0
    3.4e-1, // fun: Rastrigin, dim: 2, alg: Pso("canonical-usual"), wide: true, n: 50, iters: 80; median 6.9e-2 random 1.0e0
    1.1e-6, // fun: Rastrigin, dim: 2, alg: Pso("inertia-constant"), wide: true, n: 50, iters: 80; median 5.1e-9 random 1.0e0
    1.1e-6, // fun: Rastrigin, dim: 2, alg: Pso("inertia-linear"), wide: true, n: 50, iters: 80; median 3.5e-11 random 1.0e0
    1.8e-2, // fun: Rastrigin, dim: 2, alg: Pso("negative-example"), wide: true, n: 50, iters: 80; median 2.2e-3 random 9.7e-1
    1.5e-2, // fun: Rastrigin, dim: 2, alg: Pso("negative-mixed"), wide: true, n: 50, iters: 80; median 4.3e-3 random 9.9e-1
    3.0e-3, // fun: Rastrigin, dim: 2, alg: Pso("negative-current"), wide: true, n: 50, iters: 80; median 6.0e-4 random 1.1e0
    2.7e0, // fun: Schwefel, dim: 2, alg: Pso("classic"), wide: true, n: 50, iters: 80; median 3.7e-1 random 7.2e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("canonical-example"), wide: true, n: 50, iters: 80; median 1.2e2 random 6.9e0
    1.9e-2, // fun: Schwefel, dim: 2, alg: Pso("canonical-schwefel"), wide: true, n: 50, iters: 80; median 1.8e-3 random 5.5e0
    3.6e-1, // fun: Schwefel, dim: 2, alg: Pso("canonical-usual"), wide: true, n: 50, iters: 80; median 5.1e-2 random 6.2e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("inertia-constant"), wide: true, n: 50, iters: 80; median 7.1e-8 random 7.6e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("inertia-linear"), wide: true, n: 50, iters: 80; median 5.5e-8 random 6.7e0
    2.2e-2, // fun: Schwefel, dim: 2, alg: Pso("negative-example"), wide: true, n: 50, iters: 80; median 1.5e-3 random 6.1e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("negative-mixed"), wide: true, n: 50, iters: 80; median 4.0e-2 random 7.3e0
    f64::NAN, // fun: Schwefel, dim: 2, alg: Pso("negative-current"), wide: true, n: 50, iters: 80; median 7.4e-3 random 6.6e0
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Pso("classic"), wide: true, n: 50, iters: 80; median 2.7e-3 random 7.3e-3
    f64::NAN, // fun: Rosenbrock, dim: 2, alg: Pso("canonical-example"), wide: true, n: 50, iters: 80; median 1.1e-2 random 9.3e-3
    1.2e-3, // fun: Rosenbrock, dim: 2, alg: Pso("canonical-schwefel"), wide: true, n: 50, iters: 80; median 2.8e-4 random 7.8e-3
    3.4e-3, // fun: Rosenbrock, dim: 2, alg: Pso("canonical-usual"), wide: true, n: 50, iters: 80; median 1.1e-3 random 7.6e-3
    5.2e-6, // fun: Rosenbrock, dim: 2, alg: Pso("inertia-constant"), wide: true, n: 50, iters: 80; median 4.4e-7 random 8.6e-3
    1.5e-6, // fun: Rosenbrock, dim: 2, alg: Pso("inertia-linear"), wide: true, n: 50, iters: 80; median 1.5e-7 random 8.1e-3
    1.1e-3, // fun: Rosenbrock, dim: 2, alg: Pso("negative-example"), wide: true, n: 50, iters: 80; median 2.2e-4 random 9.1e-3
    2.0e-4, // fun: Rosenbrock, dim: 2, alg: Pso("negative-mixed"), wide: true, n: 50, iters: 80; median 4.7e-5 random 7.9e-3
    1.2e-4, // fun: Rosenbrock, dim: 2, alg: Pso("negative-current"), wide: true, n: 50, iters: 80; median 2.8e-5 random 9.3e-3
    8.3e2, // fun: Paraboloid, dim: 12, alg: Pso("classic"), wide: true, n: 120, iters: 200; median 5.9e2 random 6.8e3
    2.1e3, // fun: Paraboloid, dim: 12, alg: Pso("canonical-example"), wide: true, n: 120, iters: 200; median 9.1e2 random 6.7e3
    4.7e1, // fun: Paraboloid, dim: 12, alg: Pso("canonical-schwefel"), wide: true, n: 120, iters: 200; median 2.5e1 random 6.8e3
    5.3e2, // fun: Paraboloid, dim: 12, alg: Pso("canonical-usual"), wide: true, n: 120, iters: 200; median 3.6e2 random 6.7e3
    1.1e-6, // fun: Paraboloid, dim: 12, alg: Pso("inertia-constant"), wide: true, n: 120, iters: 200; median 3.0e-10 random 6.8e3
    1.1e-6, // fun: Paraboloid, dim: 12, alg: Pso("inertia-linear"), wide: true, n: 120, iters: 200; median 7.2e-14 random 6.7e3
    4.8e1, // fun: Paraboloid, dim: 12, alg: Pso("negative-example"), wide: true, n: 120, iters: 200; median 2.3e1 random 6.8e3
    3.4e1, // fun: Paraboloid, dim: 12, alg: Pso("negative-mixed"), wide: true, n: 120, iters: 200; median 2.1e1 random 6.7e3
    1.1e-6, // fun: Paraboloid, dim: 12, alg: Pso("negative-current"), wide: true, n: 120, iters: 200; median 4.9e-12 random 6.7e3
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("classic"), wide: true, n: 120, iters: 200; median 3.3e1 random 2.2e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("canonical-example"), wide: true, n: 120, iters: 200; median 5.0e2 random 2.2e2
    4.4e-2, // fun: Schwefel, dim: 4, alg: Pso("canonical-schwefel"), wide: true, n: 120, iters: 200; median 2.6e-3 random 2.1e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("canonical-usual"), wide: true, n: 120, iters: 200; median 1.8e0 random 2.1e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("inertia-constant"), wide: true, n: 120, iters: 200; median 1.2e2 random 2.1e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("inertia-linear"), wide: true, n: 120, iters: 200; median 1.1e-7 random 2.3e2
    4.4e-2, // fun: Schwefel, dim: 4, alg: Pso("negative-example"), wide: true, n: 120, iters: 200; median 3.3e-3 random 2.2e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("negative-mixed"), wide: true, n: 120, iters: 200; median 1.2e2 random 2.2e2
    f64::NAN, // fun: Schwefel, dim: 4, alg: Pso("negative-current"), wide: true, n: 120, iters: 200; median 1.2e2 random 2.1e2
    f64::NAN, // fun: Rosenbrock, dim: 3, alg: Pso("classic"), wide: true, n: 120, iters: 200; median 9.3e-2 random 2.2e-1
    f64::NAN, // fun: Rosenbrock, dim: 3, alg: Pso("canonical-example"), wide: true, n: 120, iters: 200; median 3.9e-1 random 2.2e-1
    5.5e-2, // fun: Rosenbrock, dim: 3, alg: Pso("canonical-schwefel"), wide: true, n: 120, iters: 200; median 1.5e-2 random 2.1e-1
    f64::NAN, // fun: Rosenbrock, dim: 3, alg: Pso("canonical-usual"), wide: true, n: 120, iters: 200; median 4.4e-2 random 2.1e-1
    1.9e-3, // fun: Rosenbrock, dim: 3, alg: Pso("inertia-constant"), wide: true, n: 120, iters: 200; median 3.8e-4 random 2.3e-1
    1.3e-3, // fun: Rosenbrock, dim: 3, alg: Pso("inertia-linear"), wide: true, n: 120, iters: 200; median 1.8e-4 random 2.2e-1
    5.0e-2, // fun: Rosenbrock, dim: 3, alg: Pso("negative-example"), wide: true, n: 120, iters: 200; median 1.3e-2 random 2.1e-1
    4.4e-3, // fun: Rosenbrock, dim: 3, alg: Pso("negative-mixed"), wide: true, n: 120, iters: 200; median 1.3e-3 random 2.3e-1
    2.6e-3, // fun: Rosenbrock, dim: 3, alg: Pso("negative-current"), wide: true, n: 120, iters: 200; median 9.2e-4 random 2.2e-1
];

