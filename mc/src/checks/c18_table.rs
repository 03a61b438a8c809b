// Generated by tools/gen_table.py
use super::c18::{ac, rm, Ac, Rm};
pub static AUTO: &[(usize, usize, usize, Ac)] = &[
    (1, 0, 0, ac::<1, 0, 0>),
    (1, 0, 1, ac::<1, 0, 1>),
    (1, 1, 0, ac::<1, 1, 0>),
    (2, 0, 0, ac::<2, 0, 0>),
    (2, 0, 1, ac::<2, 0, 1>),
    (2, 0, 2, ac::<2, 0, 2>),
    (2, 1, 0, ac::<2, 1, 0>),
    (2, 1, 1, ac::<2, 1, 1>),
    (2, 2, 0, ac::<2, 2, 0>),
    (3, 0, 0, ac::<3, 0, 0>),
    (3, 0, 1, ac::<3, 0, 1>),
    (3, 0, 2, ac::<3, 0, 2>),
    (3, 0, 3, ac::<3, 0, 3>),
    (3, 1, 0, ac::<3, 1, 0>),
    (3, 1, 1, ac::<3, 1, 1>),
    (3, 1, 2, ac::<3, 1, 2>),
    (3, 2, 0, ac::<3, 2, 0>),
    (3, 2, 1, ac::<3, 2, 1>),
    (3, 3, 0, ac::<3, 3, 0>),
    (4, 0, 0, ac::<4, 0, 0>),
    (4, 0, 1, ac::<4, 0, 1>),
    (4, 0, 2, ac::<4, 0, 2>),
    (4, 0, 3, ac::<4, 0, 3>),
    (4, 0, 4, ac::<4, 0, 4>),
    (4, 1, 0, ac::<4, 1, 0>),
    (4, 1, 1, ac::<4, 1, 1>),
    (4, 1, 2, ac::<4, 1, 2>),
    (4, 1, 3, ac::<4, 1, 3>),
    (4, 2, 0, ac::<4, 2, 0>),
    (4, 2, 1, ac::<4, 2, 1>),
    (4, 2, 2, ac::<4, 2, 2>),
    (4, 3, 0, ac::<4, 3, 0>),
    (4, 3, 1, ac::<4, 3, 1>),
    (4, 4, 0, ac::<4, 4, 0>),
    (5, 0, 0, ac::<5, 0, 0>),
    (5, 0, 1, ac::<5, 0, 1>),
    (5, 0, 2, ac::<5, 0, 2>),
    (5, 0, 3, ac::<5, 0, 3>),
    (5, 0, 4, ac::<5, 0, 4>),
    (5, 0, 5, ac::<5, 0, 5>),
    (5, 1, 0, ac::<5, 1, 0>),
    (5, 1, 1, ac::<5, 1, 1>),
    (5, 1, 2, ac::<5, 1, 2>),
    (5, 1, 3, ac::<5, 1, 3>),
    (5, 1, 4, ac::<5, 1, 4>),
    (5, 2, 0, ac::<5, 2, 0>),
    (5, 2, 1, ac::<5, 2, 1>),
    (5, 2, 2, ac::<5, 2, 2>),
    (5, 2, 3, ac::<5, 2, 3>),
    (5, 3, 0, ac::<5, 3, 0>),
    (5, 3, 1, ac::<5, 3, 1>),
    (5, 3, 2, ac::<5, 3, 2>),
    (5, 4, 0, ac::<5, 4, 0>),
    (5, 4, 1, ac::<5, 4, 1>),
    (5, 5, 0, ac::<5, 5, 0>),
    (6, 0, 0, ac::<6, 0, 0>),
    (6, 0, 1, ac::<6, 0, 1>),
    (6, 0, 2, ac::<6, 0, 2>),
    (6, 0, 3, ac::<6, 0, 3>),
    (6, 0, 4, ac::<6, 0, 4>),
    (6, 0, 5, ac::<6, 0, 5>),
    (6, 0, 6, ac::<6, 0, 6>),
    (6, 1, 0, ac::<6, 1, 0>),
    (6, 1, 1, ac::<6, 1, 1>),
    (6, 1, 2, ac::<6, 1, 2>),
    (6, 1, 3, ac::<6, 1, 3>),
    (6, 1, 4, ac::<6, 1, 4>),
    (6, 1, 5, ac::<6, 1, 5>),
    (6, 2, 0, ac::<6, 2, 0>),
    (6, 2, 1, ac::<6, 2, 1>),
    (6, 2, 2, ac::<6, 2, 2>),
    (6, 2, 3, ac::<6, 2, 3>),
    (6, 2, 4, ac::<6, 2, 4>),
    (6, 3, 0, ac::<6, 3, 0>),
    (6, 3, 1, ac::<6, 3, 1>),
    (6, 3, 2, ac::<6, 3, 2>),
    (6, 3, 3, ac::<6, 3, 3>),
    (6, 4, 0, ac::<6, 4, 0>),
    (6, 4, 1, ac::<6, 4, 1>),
    (6, 4, 2, ac::<6, 4, 2>),
    (6, 5, 0, ac::<6, 5, 0>),
    (6, 5, 1, ac::<6, 5, 1>),
    (6, 6, 0, ac::<6, 6, 0>),
    (7, 0, 0, ac::<7, 0, 0>),
    (7, 0, 1, ac::<7, 0, 1>),
    (7, 0, 2, ac::<7, 0, 2>),
    (7, 0, 3, ac::<7, 0, 3>),
    (7, 0, 4, ac::<7, 0, 4>),
    (7, 0, 5, ac::<7, 0, 5>),
    (7, 0, 6, ac::<7, 0, 6>),
    (7, 0, 7, ac::<7, 0, 7>),
    (7, 1, 0, ac::<7, 1, 0>),
    (7, 1, 1, ac::<7, 1, 1>),
    (7, 1, 2, ac::<7, 1, 2>),
    (7, 1, 3, ac::<7, 1, 3>),
    (7, 1, 4, ac::<7, 1, 4>),
    (7, 1, 5, ac::<7, 1, 5>),
    (7, 1, 6, ac::<7, 1, 6>),
    (7, 2, 0, ac::<7, 2, 0>),
    (7, 2, 1, ac::<7, 2, 1>),
    (7, 2, 2, ac::<7, 2, 2>),
    (7, 2, 3, ac::<7, 2, 3>),
    (7, 2, 4, ac::<7, 2, 4>),
    (7, 2, 5, ac::<7, 2, 5>),
    (7, 3, 0, ac::<7, 3, 0>),
    (7, 3, 1, ac::<7, 3, 1>),
    (7, 3, 2, ac::<7, 3, 2>),
    (7, 3, 3, ac::<7, 3, 3>),
    (7, 3, 4, ac::<7, 3, 4>),
    (7, 4, 0, ac::<7, 4, 0>),
    (7, 4, 1, ac::<7, 4, 1>),
    (7, 4, 2, ac::<7, 4, 2>),
    (7, 4, 3, ac::<7, 4, 3>),
    (7, 5, 0, ac::<7, 5, 0>),
    (7, 5, 1, ac::<7, 5, 1>),
    (7, 5, 2, ac::<7, 5, 2>),
    (7, 6, 0, ac::<7, 6, 0>),
    (7, 6, 1, ac::<7, 6, 1>),
    (7, 7, 0, ac::<7, 7, 0>),
    (8, 0, 0, ac::<8, 0, 0>),
    (8, 0, 1, ac::<8, 0, 1>),
    (8, 0, 2, ac::<8, 0, 2>),
    (8, 0, 3, ac::<8, 0, 3>),
    (8, 0, 4, ac::<8, 0, 4>),
    (8, 0, 5, ac::<8, 0, 5>),
    (8, 0, 6, ac::<8, 0, 6>),
    (8, 0, 7, ac::<8, 0, 7>),
    (8, 0, 8, ac::<8, 0, 8>),
    (8, 1, 0, ac::<8, 1, 0>),
    (8, 1, 1, ac::<8, 1, 1>),
    (8, 1, 2, ac::<8, 1, 2>),
    (8, 1, 3, ac::<8, 1, 3>),
    (8, 1, 4, ac::<8, 1, 4>),
    (8, 1, 5, ac::<8, 1, 5>),
    (8, 1, 6, ac::<8, 1, 6>),
    (8, 1, 7, ac::<8, 1, 7>),
    (8, 2, 0, ac::<8, 2, 0>),
    (8, 2, 1, ac::<8, 2, 1>),
    (8, 2, 2, ac::<8, 2, 2>),
    (8, 2, 3, ac::<8, 2, 3>),
    (8, 2, 4, ac::<8, 2, 4>),
    (8, 2, 5, ac::<8, 2, 5>),
    (8, 2, 6, ac::<8, 2, 6>),
    (8, 3, 0, ac::<8, 3, 0>),
    (8, 3, 1, ac::<8, 3, 1>),
    (8, 3, 2, ac::<8, 3, 2>),
    (8, 3, 3, ac::<8, 3, 3>),
    (8, 3, 4, ac::<8, 3, 4>),
    (8, 3, 5, ac::<8, 3, 5>),
    (8, 4, 0, ac::<8, 4, 0>),
    (8, 4, 1, ac::<8, 4, 1>),
    (8, 4, 2, ac::<8, 4, 2>),
    (8, 4, 3, ac::<8, 4, 3>),
    (8, 4, 4, ac::<8, 4, 4>),
    (8, 5, 0, ac::<8, 5, 0>),
    (8, 5, 1, ac::<8, 5, 1>),
    (8, 5, 2, ac::<8, 5, 2>),
    (8, 5, 3, ac::<8, 5, 3>),
    (8, 6, 0, ac::<8, 6, 0>),
    (8, 6, 1, ac::<8, 6, 1>),
    (8, 6, 2, ac::<8, 6, 2>),
    (8, 7, 0, ac::<8, 7, 0>),
    (8, 7, 1, ac::<8, 7, 1>),
    (8, 8, 0, ac::<8, 8, 0>),
    (9, 0, 0, ac::<9, 0, 0>),
    (9, 0, 1, ac::<9, 0, 1>),
    (9, 0, 2, ac::<9, 0, 2>),
    (9, 0, 3, ac::<9, 0, 3>),
    (9, 0, 4, ac::<9, 0, 4>),
    (9, 0, 5, ac::<9, 0, 5>),
    (9, 0, 6, ac::<9, 0, 6>),
    (9, 0, 7, ac::<9, 0, 7>),
    (9, 0, 8, ac::<9, 0, 8>),
    (9, 0, 9, ac::<9, 0, 9>),
    (9, 1, 0, ac::<9, 1, 0>),
    (9, 1, 1, ac::<9, 1, 1>),
    (9, 1, 2, ac::<9, 1, 2>),
    (9, 1, 3, ac::<9, 1, 3>),
    (9, 1, 4, ac::<9, 1, 4>),
    (9, 1, 5, ac::<9, 1, 5>),
    (9, 1, 6, ac::<9, 1, 6>),
    (9, 1, 7, ac::<9, 1, 7>),
    (9, 1, 8, ac::<9, 1, 8>),
    (9, 2, 0, ac::<9, 2, 0>),
    (9, 2, 1, ac::<9, 2, 1>),
    (9, 2, 2, ac::<9, 2, 2>),
    (9, 2, 3, ac::<9, 2, 3>),
    (9, 2, 4, ac::<9, 2, 4>),
    (9, 2, 5, ac::<9, 2, 5>),
    (9, 2, 6, ac::<9, 2, 6>),
    (9, 2, 7, ac::<9, 2, 7>),
    (9, 3, 0, ac::<9, 3, 0>),
    (9, 3, 1, ac::<9, 3, 1>),
    (9, 3, 2, ac::<9, 3, 2>),
    (9, 3, 3, ac::<9, 3, 3>),
    (9, 3, 4, ac::<9, 3, 4>),
    (9, 3, 5, ac::<9, 3, 5>),
    (9, 3, 6, ac::<9, 3, 6>),
    (9, 4, 0, ac::<9, 4, 0>),
    (9, 4, 1, ac::<9, 4, 1>),
    (9, 4, 2, ac::<9, 4, 2>),
    (9, 4, 3, ac::<9, 4, 3>),
    (9, 4, 4, ac::<9, 4, 4>),
    (9, 4, 5, ac::<9, 4, 5>),
    (9, 5, 0, ac::<9, 5, 0>),
    (9, 5, 1, ac::<9, 5, 1>),
    (9, 5, 2, ac::<9, 5, 2>),
    (9, 5, 3, ac::<9, 5, 3>),
    (9, 5, 4, ac::<9, 5, 4>),
    (9, 6, 0, ac::<9, 6, 0>),
    (9, 6, 1, ac::<9, 6, 1>),
    (9, 6, 2, ac::<9, 6, 2>),
    (9, 6, 3, ac::<9, 6, 3>),
    (9, 7, 0, ac::<9, 7, 0>),
    (9, 7, 1, ac::<9, 7, 1>),
    (9, 7, 2, ac::<9, 7, 2>),
    (9, 8, 0, ac::<9, 8, 0>),
    (9, 8, 1, ac::<9, 8, 1>),
    (9, 9, 0, ac::<9, 9, 0>),
    (10, 1, 0, ac::<10, 1, 0>),
    (10, 1, 1, ac::<10, 1, 1>),
    (10, 1, 6, ac::<10, 1, 6>),
    (10, 1, 9, ac::<10, 1, 9>),
    (10, 3, 0, ac::<10, 3, 0>),
    (10, 3, 1, ac::<10, 3, 1>),
    (10, 3, 6, ac::<10, 3, 6>),
    (10, 3, 7, ac::<10, 3, 7>),
    (10, 5, 0, ac::<10, 5, 0>),
    (10, 5, 1, ac::<10, 5, 1>),
    (10, 5, 5, ac::<10, 5, 5>),
    (10, 10, 0, ac::<10, 10, 0>),
    (11, 1, 0, ac::<11, 1, 0>),
    (11, 1, 1, ac::<11, 1, 1>),
    (11, 1, 6, ac::<11, 1, 6>),
    (11, 1, 10, ac::<11, 1, 10>),
    (11, 3, 0, ac::<11, 3, 0>),
    (11, 3, 1, ac::<11, 3, 1>),
    (11, 3, 6, ac::<11, 3, 6>),
    (11, 3, 8, ac::<11, 3, 8>),
    (11, 5, 0, ac::<11, 5, 0>),
    (11, 5, 1, ac::<11, 5, 1>),
    (11, 5, 6, ac::<11, 5, 6>),
    (11, 11, 0, ac::<11, 11, 0>),
    (12, 1, 0, ac::<12, 1, 0>),
    (12, 1, 1, ac::<12, 1, 1>),
    (12, 1, 6, ac::<12, 1, 6>),
    (12, 1, 11, ac::<12, 1, 11>),
    (12, 3, 0, ac::<12, 3, 0>),
    (12, 3, 1, ac::<12, 3, 1>),
    (12, 3, 6, ac::<12, 3, 6>),
    (12, 3, 9, ac::<12, 3, 9>),
    (12, 6, 0, ac::<12, 6, 0>),
    (12, 6, 1, ac::<12, 6, 1>),
    (12, 6, 6, ac::<12, 6, 6>),
    (12, 12, 0, ac::<12, 12, 0>),
    (13, 1, 0, ac::<13, 1, 0>),
    (13, 1, 1, ac::<13, 1, 1>),
    (13, 1, 6, ac::<13, 1, 6>),
    (13, 1, 12, ac::<13, 1, 12>),
    (13, 3, 0, ac::<13, 3, 0>),
    (13, 3, 1, ac::<13, 3, 1>),
    (13, 3, 6, ac::<13, 3, 6>),
    (13, 3, 10, ac::<13, 3, 10>),
    (13, 6, 0, ac::<13, 6, 0>),
    (13, 6, 1, ac::<13, 6, 1>),
    (13, 6, 6, ac::<13, 6, 6>),
    (13, 6, 7, ac::<13, 6, 7>),
    (13, 13, 0, ac::<13, 13, 0>),
    (16, 1, 0, ac::<16, 1, 0>),
    (16, 1, 1, ac::<16, 1, 1>),
    (16, 1, 6, ac::<16, 1, 6>),
    (16, 1, 15, ac::<16, 1, 15>),
    (16, 3, 0, ac::<16, 3, 0>),
    (16, 3, 1, ac::<16, 3, 1>),
    (16, 3, 6, ac::<16, 3, 6>),
    (16, 3, 13, ac::<16, 3, 13>),
    (16, 8, 0, ac::<16, 8, 0>),
    (16, 8, 1, ac::<16, 8, 1>),
    (16, 8, 6, ac::<16, 8, 6>),
    (16, 8, 8, ac::<16, 8, 8>),
    (16, 16, 0, ac::<16, 16, 0>),
    (17, 1, 0, ac::<17, 1, 0>),
    (17, 1, 1, ac::<17, 1, 1>),
    (17, 1, 6, ac::<17, 1, 6>),
    (17, 1, 16, ac::<17, 1, 16>),
    (17, 3, 0, ac::<17, 3, 0>),
    (17, 3, 1, ac::<17, 3, 1>),
    (17, 3, 6, ac::<17, 3, 6>),
    (17, 3, 14, ac::<17, 3, 14>),
    (17, 8, 0, ac::<17, 8, 0>),
    (17, 8, 1, ac::<17, 8, 1>),
    (17, 8, 6, ac::<17, 8, 6>),
    (17, 8, 9, ac::<17, 8, 9>),
    (17, 17, 0, ac::<17, 17, 0>),
    (18, 1, 0, ac::<18, 1, 0>),
    (18, 1, 1, ac::<18, 1, 1>),
    (18, 1, 6, ac::<18, 1, 6>),
    (18, 1, 17, ac::<18, 1, 17>),
    (18, 3, 0, ac::<18, 3, 0>),
    (18, 3, 1, ac::<18, 3, 1>),
    (18, 3, 6, ac::<18, 3, 6>),
    (18, 3, 15, ac::<18, 3, 15>),
    (18, 9, 0, ac::<18, 9, 0>),
    (18, 9, 1, ac::<18, 9, 1>),
    (18, 9, 6, ac::<18, 9, 6>),
    (18, 9, 9, ac::<18, 9, 9>),
    (18, 18, 0, ac::<18, 18, 0>),
    (33, 1, 0, ac::<33, 1, 0>),
    (33, 1, 1, ac::<33, 1, 1>),
    (33, 1, 6, ac::<33, 1, 6>),
    (33, 1, 32, ac::<33, 1, 32>),
    (33, 3, 0, ac::<33, 3, 0>),
    (33, 3, 1, ac::<33, 3, 1>),
    (33, 3, 6, ac::<33, 3, 6>),
    (33, 3, 30, ac::<33, 3, 30>),
    (33, 16, 0, ac::<33, 16, 0>),
    (33, 16, 1, ac::<33, 16, 1>),
    (33, 16, 6, ac::<33, 16, 6>),
    (33, 16, 17, ac::<33, 16, 17>),
    (33, 33, 0, ac::<33, 33, 0>),
    (64, 1, 0, ac::<64, 1, 0>),
    (64, 1, 1, ac::<64, 1, 1>),
    (64, 1, 6, ac::<64, 1, 6>),
    (64, 1, 63, ac::<64, 1, 63>),
    (64, 3, 0, ac::<64, 3, 0>),
    (64, 3, 1, ac::<64, 3, 1>),
    (64, 3, 6, ac::<64, 3, 6>),
    (64, 3, 61, ac::<64, 3, 61>),
    (64, 32, 0, ac::<64, 32, 0>),
    (64, 32, 1, ac::<64, 32, 1>),
    (64, 32, 6, ac::<64, 32, 6>),
    (64, 32, 32, ac::<64, 32, 32>),
    (64, 64, 0, ac::<64, 64, 0>),
    (67, 1, 0, ac::<67, 1, 0>),
    (67, 1, 1, ac::<67, 1, 1>),
    (67, 1, 6, ac::<67, 1, 6>),
    (67, 1, 66, ac::<67, 1, 66>),
    (67, 3, 0, ac::<67, 3, 0>),
    (67, 3, 1, ac::<67, 3, 1>),
    (67, 3, 6, ac::<67, 3, 6>),
    (67, 3, 64, ac::<67, 3, 64>),
    (67, 33, 0, ac::<67, 33, 0>),
    (67, 33, 1, ac::<67, 33, 1>),
    (67, 33, 6, ac::<67, 33, 6>),
    (67, 33, 34, ac::<67, 33, 34>),
    (67, 67, 0, ac::<67, 67, 0>),
    (129, 1, 0, ac::<129, 1, 0>),
    (129, 1, 1, ac::<129, 1, 1>),
    (129, 1, 6, ac::<129, 1, 6>),
    (129, 1, 128, ac::<129, 1, 128>),
    (129, 3, 0, ac::<129, 3, 0>),
    (129, 3, 1, ac::<129, 3, 1>),
    (129, 3, 6, ac::<129, 3, 6>),
    (129, 3, 126, ac::<129, 3, 126>),
    (129, 64, 0, ac::<129, 64, 0>),
    (129, 64, 1, ac::<129, 64, 1>),
    (129, 64, 6, ac::<129, 64, 6>),
    (129, 64, 65, ac::<129, 64, 65>),
    (129, 129, 0, ac::<129, 129, 0>),
];
/// Requests for lags that do not exist.
pub static BAD: &[(usize, usize, usize, Ac)] = &[
    (3, 4, 0, ac::<3, 4, 0>),
    (3, 2, 2, ac::<3, 2, 2>),
    (3, 0, 4, ac::<3, 0, 4>),
    (8, 8, 1, ac::<8, 8, 1>),
    (8, 5, 4, ac::<8, 5, 4>),
    (1, 1, 1, ac::<1, 1, 1>),
    (4, 1, 4, ac::<4, 1, 4>),
    (16, 9, 8, ac::<16, 9, 8>),
];
pub static RMS: &[(usize, Rm)] = &[
    (1, rm::<1>),
    (2, rm::<2>),
    (3, rm::<3>),
    (4, rm::<4>),
    (5, rm::<5>),
    (6, rm::<6>),
    (7, rm::<7>),
    (8, rm::<8>),
    (9, rm::<9>),
    (10, rm::<10>),
    (11, rm::<11>),
    (12, rm::<12>),
    (13, rm::<13>),
    (14, rm::<14>),
    (15, rm::<15>),
    (16, rm::<16>),
    (17, rm::<17>),
    (18, rm::<18>),
    (19, rm::<19>),
    (20, rm::<20>),
    (21, rm::<21>),
    (22, rm::<22>),
    (23, rm::<23>),
    (24, rm::<24>),
    (25, rm::<25>),
    (26, rm::<26>),
    (27, rm::<27>),
    (28, rm::<28>),
    (29, rm::<29>),
    (30, rm::<30>),
    (31, rm::<31>),
    (32, rm::<32>),
    (33, rm::<33>),
    (34, rm::<34>),
    (35, rm::<35>),
    (36, rm::<36>),
    (37, rm::<37>),
    (38, rm::<38>),
    (39, rm::<39>),
    (40, rm::<40>),
    (63, rm::<63>),
    (64, rm::<64>),
    (65, rm::<65>),
    (100, rm::<100>),
    (127, rm::<127>),
    (128, rm::<128>),
    (129, rm::<129>),
    (255, rm::<255>),
    (256, rm::<256>),
    (257, rm::<257>),
    (1000, rm::<1000>),
    (1001, rm::<1001>),
    (1002, rm::<1002>),
    (1003, rm::<1003>),
];
