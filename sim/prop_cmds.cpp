#include <set>
#include "cmds.h"
#include <string.h>
namespace sim::cmds {

// $x: an argument of kind x.  @(a|b): one of these words.  '..' one word.
struct T { const char *kind; const char *text; };
static const T producers[] = {
  {"i", "z_op $i + $i"}, {"i", "z_op $i . $i"}, {"i", "z_op ( $i + $i ) . $i"}, {"i", "z_gcd $I"}, {"i", "z_gcd $I $i"}, {"i", "z_lcm $i $i"}, {"i", "f2_p_deg $c"}, {"i", "z_totient $n"},
  {"i", "f2_pm_ord 13 $e"}, {"i", "fp_max_ord 9"}, {"i", "fp_ord 7 $s"}, {"i", "z_op 3 $< 4"}, {"i", "z_op $i $> $i"}, {"i", "f2_mat_op rank $F"}, {"i", "f2_pm_log 13 2 $e"}, {"i", "fp_log 7 3 $s"},
  {"n", "z_op $i + 7"}, {"n", "z_lcm $i $i"}, {"n", "spffl::intmath::nth_prime $k"},
  {"k", "z_op $k + 1"}, {"k", "z_gcd $i 12"}, {"k", "fp_find_gen 7"},
  {"I", "z_list $i $k"}, {"I", "z_list $i $k $i"}, {"I", "z_divisors $n"}, {"I", "fp_list -u 7"}, {"I", "spffl::intmath::nth_prime 2-$8"}, {"I", "fp_orbit 7 $s"}, {"I", "z_divisors -mp $n"},
  {"b", "f2_p_op $b . $b"}, {"b", "f2_p_op ( $b + 100 ) . $b"}, {"b", "f2_p_gcd $b $b"}, {"b", "f2_p_lcm $b $b"}, {"b", "f2_p_find -1 -i $k"}, {"b", "f2_pm_min_pol 13 $e"}, {"b", "f2_pm_find_gen 13"},
  {"c", "f2_p_op $b ^ $k"}, {"c", "f2_p_op $c . $c"}, {"c", "f2_p_lcm $B"}, {"c", "f2_p_find -1 -p $k"},
  {"B", "f2_p_list $d"}, {"B", "f2_p_list 1-$d"}, {"B", "f2_p_divisors $b"}, {"B", "f2_pm_list -u 13"}, {"B", "f2_p_find -1 -i 2-6"},
  {"r", "fp_op 7 $r @(+|-|.) $r"}, {"r", "fp_op 7 $r / $s"}, {"r", "fp_mat_op 7 det $G"}, {"s", "fp_op 7 $s . $s"}, {"s", "fp_find_gen 7"}, {"s", "fp_op 7 $s ^ $k"},
  {"R", "fp_list -a 7"}, {"R", "fp_orbit 7 $s"}, {"R", "fp_orbit 7 $s $s"}, {"S", "fp_list -u 7"}, {"S", "fp_orbit 7 $s $s"},
  {"e", "f2_pm_op 13 $e . $e"}, {"e", "f2_pm_op 13 $e / $e"}, {"e", "f2_pm_find_gen 13"}, {"E", "f2_pm_list -u 13"}, {"E", "f2_pm_convert 13 19 $E1"},
  {"q", "q_op $q @(+|-|.|/) $q"}, {"q", "q_mat_op det $Q"},
  {"P", "fp_p_op 7 $P . $P"}, {"P", "fp_p_gcd 7 $P $P"}, {"P", "fp_p_lcm 7 $P $P"}, {"P", "fp_p_find -1 7 $k3"}, {"N", "f2n_p_op 7 $N . $N"}, {"N", "f2n_p_gcd 7 $N $N"}, {"N", "f2n_p_find -1 7 $k3"},
  {"x", "fp_pm_op 7 1,0,1 $x . $x"}, {"x", "fp_pm_op 7 1,0,1 $x / $x"}, {"y", "f2n_pm_op 7 1:1:2 $y . $y"},
};
static const char *const goods[] = {
  "z_op $i + $i", "z_op ( $i + $i ) . $i", "z_op $i @(+|-|.) $i @(+|-|.) $i", "z_op $i $< $i", "z_op $i $> $i", "z_gcd $I", "z_gcd $I $I", "z_gcd -e $n $n", "z_lcm $i $i", "z_totient $I", "z_totient $n $I", "z_test_prime $I", "z_list $i $k", "z_list $i $k $i",
  "z_factor $n", "z_factor $I", "z_divisors $n", "z_divisors -mp $n", "z_mat_op $Z . $Z", "z_mat_op $Z + $Z", "spffl::intmath::nth_prime $k", "spffl::intmath::nth_prime $k-$9",
  "q_op $q @(+|-|.|/) $q", "q_vec_op $X + $X", "q_mat_op det $Q", "q_mat_op inv '[[1 2] [3 4]]'", "q_cyclotomic $k", "q_p_op 1,$i . 1,$i", "q_p_op 1,2,3 + $i",
  "f2_op 1 + 1", "f2_op 1 . 1", "f2_vec_op $V + $V", "f2_mat_op rank $F", "f2_mat_op det $F", "f2_mat_op rr $F", "f2_mat_op transpose $F", "f2_mat_op $F . $F", "f2_mat_op $F + $F", "f2_mat_op $F ^ $k", "f2_mat_op inv '[[1 1] [0 1]]'", "f2_mat_op kerbas '[[1 1] [1 1]]'",
  "f2_p_list $d", "f2_p_list 1-$d", "f2_p_op $c . $b", "f2_p_op $c + $c", "f2_p_op $c % $b", "f2_p_op $c / $b", "f2_p_op $b ^ $k", "f2_p_op ( $b + $b ) . $b", "f2_p_op 2 ^ 127 - 1", "f2_p_deg $B", "f2_p_deg $c", "f2_p_deg $b $B $b", "f2_p_gcd $b $B", "f2_p_gcd -e $b $b", "f2_p_lcm $b $B", "f2_p_totient $b", "f2_p_totient $B",
  "f2_p_test -i $B", "f2_p_test -p $B", "f2_p_test -ip $b", "f2_p_period $b1", "f2_p_factor $b", "f2_p_factor $B", "f2_p_divisors $b", "f2_p_divisors -mp $b", "f2_p_divisors $B", "f2_p_eval $b 0 1", "f2_p_qp $i $n", "f2_p_mat_op $H . $H", "f2_p_mat_op det $H", "f2_p_comp_mx $b2", "f2_p_find -1 -i $k", "f2_p_find -1 -p $k", "f2_p_find -1 -ip 2-5",
  "f2_pm_list -a 13", "f2_pm_list -u $m", "f2_pm_op 13 $e @(+|-|.|/) $e", "f2_pm_op 13 $e ^ $k", "f2_pm_tbl b @(+|.|log:2)", "f2_pm_ord 13 $E", "f2_pm_find_gen $m", "f2_pm_log 13 2 $E", "f2_pm_ch_pol 13 $E", "f2_pm_min_pol 13 $E", "f2_pm_convert b d $g $g", "f2_pm_mat_op 13 $H . $H", "f2_pm_mat_op 13 det $H", "f2_pm_vec_op 13 '[1 2]' + '[$g $g]'",
  "f2_pr_op $b/$b + $b/$b", "f2_pr_op $b . $b", "f2_pr_mat_op det '[[1/2 3] [1 1]]'",
  "f2n_p_list 7 1", "f2n_p_op 7 $N @(+|-|.|%) $N", "f2n_p_deg 7 $N", "f2n_p_gcd 7 $N $N", "f2n_p_lcm 7 $N $N", "f2n_p_totient 7 $N", "f2n_p_test 7 $N2", "f2n_p_factor 7 $N", "f2n_p_divisors 7 $N", "f2n_p_eval 7 $N 1 2", "f2n_p_comp_mx 7 1:2:3", "f2n_p_find -1 7 $k3",
  "f2n_pm_list -a 7 1:1:2", "f2n_pm_list -u 7 1:1:2", "f2n_pm_op 7 1:1:2 $y @(+|-|.|/) $y", "f2n_pm_tbl 7 1:1:2 +", "f2n_pm_ord 7 1:1:2 $y", "f2n_pm_find_gen 7 1:1:2", "f2n_pm_ch_pol 7 1:1:2 $y", "f2n_pm_min_pol 7 1:1:2 $y", "f2n_p_qp 7 $i $n", "f2n_pm_mat_op 7 1:1:2 det '[[1:1 2] [$g3 1]]'", "f2n_pm_vec_op 7 1:1:2 '[1:1 2]' + '[$g3 1:2]'", "f2n_pr_op 7 1:2/3 + $N",
  "fp_list -a 7", "fp_list -u $P7", "fp_op 7 $r @(+|-|.) $r", "fp_op 7 $r / $s", "fp_op 7 ( $r + $r ) . $r", "fp_tbl $P7 @(+|.)", "fp_ord 7 $s", "fp_ord 7 $S", "fp_max_ord $n", "fp_orbit 7 $s", "fp_orbit 7 $s $s", "fp_find_gen $P7", "fp_log 7 3 $s", "fp_mat_op 7 $G . $G", "fp_mat_op 7 det $G", "fp_mat_op 7 $G + $G", "fp_vec_op 7 $W + $W",
  "fp_p_list 3 1", "fp_p_list 3 1-2", "fp_p_op 7 $P @(+|-|.|%) $P", "fp_p_comp_mx 7 1,2,3", "fp_p_deg 7 $P", "fp_p_gcd 7 $P $P", "fp_p_lcm 7 $P $P", "fp_p_totient 7 $P", "fp_p_test 7 $P2", "fp_p_factor 7 $P", "fp_p_divisors 7 $P", "fp_p_divisors -mp 7 $P", "fp_p_eval 7 $P $r", "fp_p_eval 7 $P $R", "fp_p_qp 7 $i $n", "fp_p_find -1 7 $k3",
  "fp_pm_list -a 3 1,0,1", "fp_pm_list -u 3 1,0,1", "fp_pm_op 7 1,0,1 $x @(+|-|.|/) $x", "fp_pm_tbl 3 1,0,1 +", "fp_pm_ord 7 1,0,1 $x", "fp_pm_ch_pol 7 1,0,1 $x", "fp_pm_min_pol 7 1,0,1 $x", "fp_pm_mat_op 7 1,0,1 '[[1,1 2] [$g3 1]]' . '[[1 0] [1,2 1]]'", "fp_pm_vecop 7 1,0,1 '[1,1 2]' + '[$g3 1,2]'", "fp_pr_op 7 1,2/3 + $P",
  "fpn_p_op 3 1,0,1 1,2:1 + 1", "fpn_p_op 3 1,0,1 1,2:1 . 1:2", "fpn_p_gcd 3 1,0,1 1:2 1:1", "fpn_pm_op 3 1,0,1 1:0:1,1 1:1 . 1:2", "fpn_p_qp 3 1,0,1 $i",
  // powers, parentheses, comparisons and the remaining operators
  "z_op $i ^ $k3", "z_op $i @(%|*) $i", "z_op $i @(==|!=|<|>=) $i", "z_op ( $i - $i ) * ( $i + $i )", "z_mat_op $Z - $Z", "z_mat_op $Z ^ $k3", "z_mat_op transpose $Z", "z_mat_op ( $Z + $Z ) . $Z",
  "q_op $q ^ $k3", "q_op ( $q + $q ) * $q", "q_op $q @(==|!=|<|<=|>) $q", "q_p_op 1,$i ^ $k3", "q_p_op ( 1,2,3 - $i ) . 1,$i", "q_mat_op $Q @(+|-|.) $Q", "q_mat_op @(rr|rank|transpose|rech|rrnz|rechnz|rechr) $Q", "q_vec_op ( $X - $X ) + $X",
  "f2_op 1 ^ $k", "f2_op ( 1 + 0 ) . 1 - 1", "f2_mat_op @(rech|rechnz|rechr|rrnz|rank) $F", "f2_mat_op ( $F + $F ) . $F - $F", "f2_vec_op $V - $V",
  "f2_p_op $b * $b", "f2_p_op $b @(==|!=) $c", "f2_p_mat_op $H @(+|-) $H", "f2_p_mat_op $H ^ $k3", "f2_p_mat_op transpose $H", "f2_pm_op 13 ( $e + $e ) . $e", "f2_pm_op 13 $e @(==|!=) $e", "f2_pm_mat_op 13 @(rr|rank|rech|rrnz|transpose) $H", "f2_pm_mat_op 13 ( $H - $H ) . $H ^ $k3",
  "f2_pm_tbl b @(-|u*|/|log|alog:2|alog)", "fp_tbl 7 @(-|u*|/|log:3|alog:3|log)", "fp_pm_tbl 3 1,0,1 @(.|-|u*|/|*)", "f2n_pm_tbl 7 1:1:2 @(-|.|u*|/|log|alog)", "f2n_pm_log 7 1:1:2 1:0 1:2", "f2n_pm_log 7 1:1:2 1:0 $y",
  "f2_pr_op $b/$b ^ $k3", "f2_pr_op ( $b + $b/$b ) . $b - $b", "f2_pr_op $b/$b @(==|!=) $b/$b", "f2_pr_mat_op '[[1/2 $g] [$g 1]]' @(+|-|.) '[[1 3/7] [2 b]]'",
  "f2n_p_op 7 $N ^ $k3", "f2n_p_op 7 ( $N + $N ) . $N", "f2n_p_op 7 $N @(==|!=) $N", "f2n_p_mat_op 7 '[[1:2 3] [$g3 1]]' @(+|-|.) '[[1:3 $g3] [1 2]]'", "f2n_p_mat_op 7 '[[1:2 3] [$g3 1]]' ^ $k3", "f2n_p_eval 7 $N 1 2 3", "f2n_p_totient 7 $N $N", "f2n_p_deg 7 $N $N",
  "f2n_pm_op 7 1:1:2 $y ^ $k", "f2n_pm_op 7 1:1:2 ( $y + $y ) . $y", "f2n_pm_op 7 1:1:2 $y @(==|!=) $y", "f2n_pm_mat_op 7 1:1:2 '[[1:1 2] [$g3 1]]' @(+|-|.) '[[1:1 2] [$g3 1]]'",
  "f2n_pr_op 7 1:2/3 ^ $k3", "f2n_pr_op 7 ( 1:2/3 - $N ) . $N", "f2n_pr_op 7 1:2/3 @(==|!=) $N", "f2n_pr_mat_op 7 '[[1:2/3 $g3] [2 1]]' @(+|-|.) '[[1:2 3] [$g3 1]]'",
  "fp_op 7 $s ^ $k", "fp_op 7 $s @(==|!=|*) $s", "fp_mat_op 7 @(rr|rank|rech|rrnz|rechnz|rechr|transpose) $G", "fp_mat_op 7 ( $G - $G ) . $G ^ $k3", "fp_vec_op 7 $W - $W",
  "fp_p_op 7 $P ^ $k3", "fp_p_op 7 ( $P + $P ) . $P", "fp_p_op 7 $P @(==|!=|*) $P", "fp_p_mat_op 7 '[[1,2 3] [$g3 1]]' @(+|-|.) '[[1,2 $g3] [2 1]]'", "fp_p_mat_op 7 '[[1,2 3] [$g3 1]]' ^ $k3", "fp_p_deg 7 $P $P $P", "fp_p_totient 7 $P $P", "fp_p_factor 7 $P $P",
  "fp_pm_op 7 1,0,1 $x ^ $k", "fp_pm_op 7 1,0,1 ( $x + $x ) . $x", "fp_pm_op 7 1,0,1 $x @(==|!=|*) $x", "fp_pm_mat_op 7 1,0,1 @(rr|rank|transpose|rech) '[[1,1 2] [$g3 1]]'", "fp_pm_mat_op 7 1,0,1 '[[1,1 2] [$g3 1]]' @(+|-) '[[1,1 2] [$g3 1]]'",
  "fp_pr_op 7 1,2/3 ^ $k3", "fp_pr_op 7 ( 1,2/3 - $P ) . $P", "fp_pr_op 7 1,2/3 @(==|!=) $P", "fp_pr_mat_op 7 '[[1,2/3 $g3] [2 1]]' @(+|-|.) '[[1,2 3] [$g3 1]]'",
  "fpn_p_op 3 1,0,1 1,2:1 ^ $k3", "fpn_p_op 3 1,0,1 ( 1,2:1 - 1:2 ) . 1:1", "fpn_p_mat_op 3 1,0,1 '[[1,2:1 1] [2 1]]' @(+|-|.) '[[1 0] [1:1 1]]'", "fpn_pm_op 3 1,0,1 1:0:1,1 1:1 ^ $k", "fpn_pm_op 3 1,0,1 1:0:1,1 ( 1:1 + 1 ) . 1:2 - 1", "fpn_pm_op 3 1,0,1 1:0:1,1 1:1 / 1:2", "fpn_pm_mat_op 3 1,0,1 1:0:1,1 '[[1,2:1 1] [2 1]]' @(+|-|.) '[[1 0] [1:1 1]]'",
  "-l", "z_op",
};
// Much output, from the outer or from an inner command.
static const char *const bigs[] = {
  "z_test_prime { z_list $n $L }", "f2_p_deg { f2_p_list 8-9 }", "f2_p_deg { f2_p_op 2 ^ $Y }", "z_gcd 0 { z_list 0 $L $i }", "z_list $n $L $i", "z_list $n { z_list $L 1 }", "f2_p_op 2 ^ $Y", "f2_p_op { f2_p_op 2 ^ $Y } + { f2_p_op 2 ^ $Y }", "f2_p_deg { f2_p_op { f2_p_op 2 ^ $Y } . $b } $b",
  "f2_p_list 9-10", "f2_p_test -i { f2_p_list 7 }", "z_factor { z_list 1 $L4 }", "z_divisors { z_op 5040 }", "fp_tbl 101 +", "fp_tbl 101 .", "f2_pm_tbl 11b +", "f2_pm_list -a 409", "f2_mat_op { f2_mat_op transpose $F } . $F", "fp_ord 7 { fp_list -u 7 } { fp_list -u 7 } { fp_orbit 7 3 }", "f2_p_lcm { f2_p_find -1 -i 2-12 }", "f2_p_gcd { f2_p_list 9 } 0", "z_lcm { z_list 1 12 }", "-l",
  "z_gcd { z_list $n $L $i } $i $n", "z_gcd $i { z_list 0 $L 6 } $n", "z_test_prime { z_list $n $L } $n $n", "f2_p_deg { f2_p_list $d } $b $c", "f2_p_deg { f2_p_list 6-8 } $b { f2_p_list 7 } $c", "fp_ord 11 { fp_list -u 11 } $s $s", "z_lcm { z_list 1 { z_op $k . 3 } } $k", "z_factor { z_list 2 $L4 } $n $i",
  "fp_op 1009 { fp_list -u 3 } + { fp_list -u 3 } + 1", "f2_p_gcd { f2_p_list 7 } { f2_p_op 2 ^ $Y } $b", "fp_ord 1009 { fp_list -u 1009 } 2 3", "z_totient { z_list 2 $L4 } $n",
};
static const char *const bads[] = {
  "nosuch $i", "", "z_op $i /", "f2_p_op $b / 0", "f2_p_op $b % 0", "fp_op 7 $s / 0", "fp_op 6 3 / 2", "f2_p_op zz", "z_factor x", "f2_mat_op det /nonexist", "f2_mat_op inv '[[1 1] [1 1]]'", "z_op $i }", "z_op {", "z_op { $i", "z_op 3 x 4", "f2_p_deg q", "q_op 1/0", "f2_pm_list b", "f2_mat_op det -",
  "f2_mat_op '[[1 0] [0 1]]' + '[[1]]'", "fp_mat_op 7 '[[1 2]]' . '[[1 2]]'", "f2_vec_op '[1 1]' + '[1]'", "z_op { nosuch }", "z_op { z_op 3 / 0 }", "f2_p_deg { f2_p_op zz }", "f2_pm_op 13 $e / 0", "f2_p_gcd", "z_list", "fp_list 7", "f2_p_comp_mx", "z_op { } { z_op $i", "f2_p_find -1 zz", "z_op )", "z_op ( $i", "z_op $i + + + .",
  "f2_random zz", "f2_random 2 3 4", "f2_pm_random", "f2_pm_random 13 zz", "f2_pm_random 13 2 2", "f2_mat_random", "f2_mat_random 3", "f2_mat_random 3 zz", "f2_mat_random 3 0", "f2_pr_random", "f2_pr_random zz", "f2_pr_random 3 zz", "f2_pr_mat_random 3 3", "f2_pr_mat_random 3 zz 3", "f2_pm_mat_random 13", "f2_pm_mat_random 13 3", "f2_pm_mat_random 13 0 2", "f2n_p_random 7", "f2n_p_random 7 zz", "f2n_p_random 7 2 zz", "f2n_pm_random 7", "f2n_pm_random", "f2n_pm_mat_random 7 1,0,1", "f2n_pm_mat_random 7 1,1,2 2", "fp_random", "fp_random 7 zz", "fp_random 7 2 2", "fp_mat_random 7", "fp_mat_random 7 2", "fp_mat_random 7 2 zz", "fp_p_random 7", "fp_p_random", "fp_p_random 7 zz", "fp_pm_random 7", "fp_pm_random 7 1,0,1 zz", "fp_pm_mat_random 7 1,0,1", "fp_pm_mat_random 7 1,0,1 2", "f2_pm_ord", "f2_pm_ord 13", "f2_pm_ord zz 3", "f2_pm_mat_ord", "f2_pm_mat_ord 13 13", "f2_pm_mat_ord 13 2 2", "fp_mat_ord", "fp_mat_ord 7 7", "fp_pm_mat_ord", "fp_pm_mat_ord 7", "fp_pm_mat_ord 7 1,0,1 7 7", "f2n_pm_vec_op", "f2n_pm_vec_op 7", "fp_pr_mat_op", "fpn_p_gcd", "fpn_p_gcd 3", "fpn_pm_mat_op 3", "f2_p_random", "f2_p_random zz", "f2_p_random 3 zz", "z_list", "f2n_pr_mat_op",
  "q_mat_op inv '[[1 2] [2 4]]'", "fp_mat_op 7 inv '[[1 1] [1 1]]'", "f2_mat_op det '[[1 0] [1]]'", "f2_mat_op det '[[1 0] [1 0] [1 1]]'", "fp_p_op 7 1,2 / 0", "f2n_p_op 7 1:2 / 0", "f2n_pm_op 7 1:1:2 1 / 0", "fp_pm_op 7 1,0,1 1 / 0", "f2_pr_op 1/0", "q_op 1 / 0", "z_gcd 3 x", "f2_pm_log 13", "f2_p_random", "z_totient x", "spffl::intmath::nth_prime q", "fp_ord 7 0", "fp_find_gen 8", "f2_p_list -$k", "fp_p_list 3 -2", "fp_orbit 0 $s", "f2_pm_ch_pol 4 2", "f2_pm_min_pol 4 3", "fp_tbl 0 +", "f2_p_find -1 -i 0", "q_cyclotomic 0", "fp_mat_random 7 0 2", "fp_random 0", "f2_p_comp_mx 1", "spffl::intmath::nth_prime 0", "fp_op 7 0 ^ -1", "f2_mat_ord x y z", "z_mat_op '[[1 2] [3 4]]' . '[[1 2 3]]'", "z_mat_op inv '[[1 2] [3 4]]'", "z_mat_op zz '[[1 2] [3 4]]'", "z_mat_op '[[1 2] [3 x]]' + '[[1 2] [3 4]]'", "z_mat_op + +",
  "f2_pm_mat_solve 13 /sim/w/none /sim/w/none", "f2_pm_mat_diagonalizable 13 /sim/w/none", "f2n_pm_log 7 1:1:2 1:0 zz", "f2n_pr_op 7 1:2/0", "fp_pr_op 7 1,2/0", "f2_pr_op 3/0 + 1", "fp_pr_mat_op 7 inv '[[1 1] [1 1]]'", "f2n_pr_mat_op 7 inv '[[1:1 1] [1:1 1]]'", "fpn_pm_op 3 1,0,1 1:0:1,1 1 / 0", "fpn_p_op 3 1,0,1 1:2 / 0", "f2_pr_op 1 / 0", "q_p_op 1,2 / 0", "fp_mat_op 7 '[[1 2] [3 4]]' ^ x", "f2_pm_tbl b x", "fp_tbl 7 x", "fp_pm_tbl 3 1,0,1 x", "f2n_pm_tbl 7 1:1:2 x", "z_op 3 ^ x", "fp_mat_op 7 ( '[[1 2] [3 4]]'", "f2_vec_op '[1 0]' . '[1]'",
  "fp_pm_mat_op 7 1,0,1 zz '[[1 2] [3 4]]'", "fp_pm_mat_op 7 1,0,1 '[[1 2] [3 4]]' . '[[1 2 3]]'", "fp_pm_mat_op 7", "fp_pm_vecop", "fp_pm_vecop 7 1,0,1 '[1 2]' + '[1]'", "fp_pm_vecop 7 1,0,1 '[1 2]' zz '[1 2]'", "fp_pm_mat_op 7 1,0,1 inv '[[1 1] [1 1]]'",
  "fp_mat_ch_pol 7 /sim/w/none", "f2_pm_mat_ch_pol 13 /sim/w/none",
};

static std::string num(long v) { return std::to_string(v); }
static std::string hex(unsigned v) { return sprintf_s("%x", v); }
std::string matrix_text(Rng &r, int n, int m, int lo, int hi) {
  std::string s;
  for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) { if (j) s += ' '; s += num(r.range(lo, hi)); } s += '\n'; }
  return s;
}
static std::string mat(Rng &r, int n, int m, int lo, int hi, bool h = false) {
  std::string s = "[";
  for (int i = 0; i < n; i++) { s += i ? " [" : "["; for (int j = 0; j < m; j++) { if (j) s += ' '; int v = r.range(lo, hi); s += h ? hex(v) : num(v); } s += ']'; }
  return s + "]";
}
static std::string vecw(Rng &r, int n, int lo, int hi) { std::string s = "["; for (int j = 0; j < n; j++) { if (j) s += ' '; s += num(r.range(lo, hi)); } return s + "]"; }
static std::string poly(Rng &r, int d, int hi, char sep) { std::string s = num(r.range(1, hi)); for (int i = 0; i < d; i++) s += sep + num(r.range(0, hi)); return s; }

static Args expand(Rng &r, const std::string &t, const Style &s, int dim);
static Args leaf(Rng &r, const std::string &k, int dim) {
  auto list = [&](int lo, int hi, bool h) { Args a; int n = r.range(1, 4); for (int i = 0; i < n; i++) { int v = r.range(lo, hi); a.push_back(h ? hex(v) : num(v)); } return a; };
  switch (k[0]) {
  case 'i': return {num(r.range(1, 60))};
  case 'I': return list(1, 120, false);
  case 'n': return {num(r.range(2, 300))};
  case 'k': return {num(k == "k3" ? r.range(2, 3) : r.range(1, 6))};
  case 'd': return {num(r.range(2, 5))};
  case 'b': return {k == "b1" ? hex(r.range(0, 63) * 2 + 3) : k == "b2" ? hex(r.range(4, 255)) : hex(r.range(1, 255))};
  case 'c': return {hex(r.range(1, 0xffffff))};
  case 'B': return list(1, 255, true);
  case 'r': return {num(r.range(0, 6))};
  case 's': return {num(r.range(1, 6))};
  case 'R': return list(0, 6, false);
  case 'S': return list(1, 6, false);
  case 'e': return {hex(r.range(1, 15))};
  case 'E': return k == "E1" ? Args{hex(r.range(1, 15))} : list(1, 15, true);
  case 'g': return {num(k == "g3" ? r.range(0, 3) : r.range(1, 7))};
  case 'm': return {r.pick(std::vector<std::string>{"13", "b", "7", "25", "d", "19"})};
  case 'q': return {r.chance(1, 3) ? num(r.range(1, 20)) : num(r.range(1, 20)) + "/" + num(r.range(1, 9))};
  case 'P': return {k == "P7" ? r.pick(std::vector<std::string>{"3", "5", "7", "11", "13"}) : k == "P2" ? poly(r, r.range(1, 3), 6, ',') : poly(r, r.range(0, 3), 6, ',')};
  case 'N': return {k == "N2" ? poly(r, r.range(1, 2), 3, ':') : poly(r, r.range(0, 2), 3, ':')};
  case 'x': return {poly(r, r.range(0, 1), 6, ',')};
  case 'y': return {poly(r, r.range(0, 1), 3, ':')};
  case 'F': return {mat(r, dim, dim, 0, 1)};
  case 'G': return {mat(r, dim, dim, 0, 6)};
  case 'H': return {mat(r, dim, dim, 0, 15, true)};
  case 'Z': return {mat(r, dim, dim, 0, 20)};
  case 'Q': return {mat(r, 2, 2, 0, 9)};
  case 'V': return {vecw(r, dim, 0, 1)};
  case 'W': return {vecw(r, dim, 0, 6)};
  case 'X': return {vecw(r, dim, 0, 9)};
  case 'L': return {num(k == "L4" ? r.range(100, 400) : r.range(50, 2500))};
  case 'Y': return {num(r.range(100, 17000))};
  case '<': return {r.chance(1, 2) ? "<" : "<="};
  case '>': return {r.chance(1, 2) ? ">" : ">="};
  case '8': return {num(r.range(3, 9))};
  case '9': return {num(r.range(7, 12))};
  }
  harness_error("no such argument kind " + k);
}
static Args arg(Rng &r, const std::string &k, const Style &s, int dim) {
  if (s.depth > 0 && s.brace && (int)r.below(100) < s.brace) {
    // Only kinds for which every value will do are replaced.
    static const std::vector<std::string> whole = {"i", "n", "k", "I", "b", "c", "B", "r", "s", "R", "S", "e", "E", "q", "P", "N", "x", "y"};
    bool ok = false; for (auto &w : whole) if (w == k) ok = true;
    if (ok) {
      std::vector<const char *> c; for (auto &p : producers) if (k == p.kind) c.push_back(p.text);
      if (!c.empty()) {
        Style in = s; in.depth--; in.brace = s.brace * 2 / 3;
        Args a = {"{"}, b = expand(r, r.pick(c), in, 2); a.insert(a.end(), b.begin(), b.end()); a.push_back("}"); return a;
      }
    }
  }
  return leaf(r, k, dim);
}
static Args expand(Rng &r, const std::string &t, const Style &s, int dim) {
  Args out; size_t i = 0;
  while (i < t.size()) {
    while (i < t.size() && t[i] == ' ') i++;
    if (i >= t.size()) break;
    std::string w; bool q = false; Args whole; bool is_whole = false;
    for (; i < t.size() && (q || t[i] != ' '); ) {
      if (t[i] == '\'') { q = !q; i++; continue; }
      if (t[i] == '@' && i + 1 < t.size() && t[i + 1] == '(') {
        size_t e = t.find(')', i); std::string body = t.substr(i + 2, e - i - 2); std::vector<std::string> alt; size_t p = 0;
        for (;;) { size_t b = body.find('|', p); alt.push_back(body.substr(p, b == std::string::npos ? b : b - p)); if (b == std::string::npos) break; p = b + 1; }
        w += r.pick(alt); i = e + 1; continue;
      }
      if (t[i] == '$') {
        std::string k(1, t[i + 1]); i += 2;
        while (i < t.size() && isdigit(t[i])) k += t[i++];
        bool alone = w.empty() && !q && (i >= t.size() || t[i] == ' ');
        Style none; Args v = arg(r, k, alone ? s : none, dim);
        if (alone) { whole = v; is_whole = true; } else w += v[0];
        continue;
      }
      w += t[i++];
    }
    if (is_whole) out.insert(out.end(), whole.begin(), whole.end()); else out.push_back(w);
  }
  return out;
}
template <size_t N> static const char *one(Rng &r, const char *const (&a)[N]) { return a[r.below(N)]; }

Cmd good(Rng &r, const Style &s) {
  Cmd c; if (s.big && r.chance(1, 3)) { c.args = expand(r, one(r, bigs), s, r.range(2, 4)); return c; }
  for (int i = 0; i < 20; i++) {
    c.args = expand(r, one(r, goods), s, r.range(2, 3));
    if (!s.brace || r.chance(1, 30)) break;
    bool has = false; for (auto &a : c.args) if (a == "{") has = true;
    if (has) break;
  }
  return c;
}
static std::string nonsing(Rng &r, int n, int hi) { // unit lower triangular times scaling: never singular
  std::string s;
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { if (j) s += ' '; s += num(j > i ? 0 : j == i ? 1 : r.range(0, hi)); } s += '\n'; }
  return s;
}
Cmd good_io(Rng &r) {
  Cmd c; int n = r.range(1, 5);
  std::string f = r.pick(std::vector<std::string>{"/sim/w/m.txt", "/sim/w/a b.txt", "/sim/w/x'y$z;.txt", "/sim/w/q(1)*"});
  switch (r.below(14)) {
  case 12: { int k = std::min(n, 4); c.args = {"f2_pm_mat_solve", "13", f, "/sim/w/b"}; std::string v; for (int i = 0; i < k; i++) v += (i ? " " : "") + num(r.range(0, 9)); c.files.push_back({f, nonsing(r, k, 7)}); c.files.push_back({"/sim/w/b", v + "\n"}); break; }
  case 13: { int k = std::min(n, 3); c.args = {"f2_pm_mat_diagonalizable", "13", f}; c.files.push_back({f, nonsing(r, k, 7)}); break; }
  case 0: c.args = {"f2_mat_ord"}; c.in = nonsing(r, n, 1); break;
  case 1: c.args = {"fp_mat_ord", "7"}; c.in = nonsing(r, n, 6); break;
  case 2: c.args = {"f2_pm_mat_ord", "13"}; c.in = nonsing(r, std::min(n, 3), 7); break;
  case 3: c.args = {"fp_pm_mat_ord", "7", "1,0,1"}; c.in = nonsing(r, std::min(n, 3), 6); break;
  case 4: c.args = {"f2_mat_ch_pol", f}; c.files.push_back({f, matrix_text(r, n, n, 0, 1)}); break;
  case 5: c.args = {"fp_mat_ch_pol", "7", f}; c.files.push_back({f, matrix_text(r, n, n, 0, 6)}); break;
  case 6: c.args = {"f2_pm_mat_ch_pol", "13", f}; c.files.push_back({f, matrix_text(r, n, n, 0, 7)}); break;
  case 7: c.args = {"f2_mat_op", "det", f}; c.files.push_back({f, matrix_text(r, n, n, 0, 1)}); break;
  case 8: c.args = {"f2_mat_op", f, ".", f}; c.files.push_back({f, matrix_text(r, n, n, 0, 1)}); break;
  case 9: c.args = {"fp_mat_op", "7", f, "+", f}; c.files.push_back({f, matrix_text(r, n, n + r.range(0, 3), 0, 6)}); break;
  case 10: c.args = {"q_mat_op", f, ".", f}; c.files.push_back({f, matrix_text(r, n, n, 0, 9)}); break;
  default: c.args = {"f2_mat_op", "rr", f}; c.files.push_back({f, matrix_text(r, n, n + r.range(0, 40), 0, 1)}); break;
  }
  return c;
}
// Matrices read in that have no answer: singular, of unequal or unfitting shape.
static std::string sing(Rng &r, int n, int hi) {
  std::string row; for (int j = 0; j < n; j++) row += (j ? " " : "") + num(r.range(0, hi));
  std::string s = r.chance(1, 3) ? std::string() : nonsing(r, n, hi), z; if (s.empty()) { for (int i = 0; i < n; i++) s += row + "\n"; return s; }
  for (int j = 0; j < n; j++) z += j ? " 0" : "0"; // a row of zeros in place of one of the rows
  int at = r.range(0, n - 1); size_t p = 0; for (int i = 0; i < at; i++) p = s.find('\n', p) + 1;
  s.replace(p, s.find('\n', p) - p, z); return s;
}
static Cmd bad_io(Rng &r) {
  Cmd c; int n = r.range(2, 4); std::string f = "/sim/w/m", g = "/sim/w/n";
  switch (r.below(13)) {
  case 0: { std::string v; for (int i = 0; i < n; i++) v += (i ? " " : "") + num(r.range(0, 7)); c.args = {"f2_pm_mat_solve", "13", f, g}; c.files = {{f, sing(r, n, 7)}, {g, v + "\n"}}; break; }
  case 1: c.args = {"fp_mat_op", "7", "inv", f}; c.files = {{f, sing(r, n, 6)}}; break;
  case 2: c.args = {"f2_pm_mat_op", "13", "inv", f}; c.files = {{f, sing(r, n, 7)}}; break;
  case 3: c.args = {"q_mat_op", "inv", f}; c.files = {{f, sing(r, n, 9)}}; break;
  case 4: c.args = {"fp_mat_op", "7", f, r.chance(1, 2) ? "+" : "-", g}; c.files = {{f, matrix_text(r, n, n, 0, 6)}, {g, matrix_text(r, n, n + 1, 0, 6)}}; break;
  case 5: c.args = {"f2_mat_op", f, ".", g}; c.files = {{f, matrix_text(r, n, n, 0, 1)}, {g, matrix_text(r, n + 1, n, 0, 1)}}; break;
  case 6: c.args = {"f2_mat_op", "inv", f}; c.files = {{f, matrix_text(r, n, n + 1, 0, 1)}}; break;
  case 7: c.args = {"fp_mat_op", "7", "det", f}; c.files = {{f, matrix_text(r, n, n + 1, 0, 6)}}; break;
  case 8: c.args = {r.chance(1, 2) ? "fp_mat_ord" : "fp_mat_ch_pol", "7"}; if (c.args[0] == "fp_mat_ord") c.in = matrix_text(r, n, n + 1, 0, 6); else { c.args.push_back(f); c.files = {{f, matrix_text(r, n + 1, n, 0, 6)}}; } break;
  case 9: c.args = {"f2_mat_ord"}; c.in = r.chance(1, 2) ? "" : "1 0\n1\n"; break;
  case 10: c.args = {"f2_pm_mat_ord", "13"}; c.in = r.chance(1, 2) ? "" : "1 0\n1 zz\n"; break;
  case 11: c.args = {"fp_pm_mat_ord", "7", "1,0,1"}; c.in = r.chance(1, 2) ? "" : "1,0 0\n1,x 1\n"; break;
  default: c.args = {"z_mat_op", f, "+", g}; c.files = {{f, matrix_text(r, n, n, 0, 9)}, {g, matrix_text(r, n - 1, n, 0, 9)}}; break;
  }
  return c;
}
Cmd bad(Rng &r) { if (r.chance(1, 8)) return bad_io(r); Cmd c; c.args = expand(r, one(r, bads), Style(), 2); return c; }
void mangle(Rng &r, Cmd &c) {
  // Whatever a command is, one argument that is no word of its language is refused.
  static const std::vector<std::string> junk = {"zz@", "zz@", "", ",", "[zz", "/nonexistent/zz"};
  if (r.chance(1, 3) && c.args.size() > 1) { // too few words: none at all, or not all of a fixed number
    static const std::set<std::string> none = {"f2_mat_op", "f2_op", "f2_p_deg", "f2_p_divisors", "f2_p_factor", "f2_p_mat_op", "f2_p_op", "f2_p_period", "f2_pr_mat_op", "f2_pr_op", "f2_random", "f2_vec_op", "q_mat_op", "q_op", "q_p_op", "q_vec_op", "z_factor", "z_mat_op", "z_op", "z_test_prime"};
    static const std::set<std::string> fixed = {"f2_mat_ch_pol", "f2_mat_random", "f2_p_list", "f2_p_find", "f2_p_comp_mx", "f2_pm_tbl", "f2_pm_mat_solve", "f2_pm_mat_ch_pol", "f2_pm_mat_diagonalizable", "f2_pm_mat_ord", "f2_pm_mat_random", "f2_pr_mat_random", "f2n_p_list", "f2n_p_find", "f2n_p_comp_mx", "f2n_pm_list", "f2n_pm_tbl", "f2n_pm_mat_random", "fp_tbl", "fp_max_ord", "fp_mat_ch_pol", "fp_mat_ord", "fp_mat_random", "fp_p_list", "fp_p_comp_mx", "fp_p_find", "fp_pm_list", "fp_pm_tbl", "fp_pm_mat_random", "fp_pm_ord"};
    if (fixed.count(c.args[0]) && r.chance(1, 3)) { c.args.push_back("1"); return; } // or one too many
    if (!none.count(c.args[0])) { c.args.resize(fixed.count(c.args[0]) ? r.range(1, (int)c.args.size() - 1) : 1); c.in.clear(); return; }
  }
  { const std::string &v = c.args[0]; // an operand with something stuck to it
    if (v.size() > 3 && !v.compare(v.size() - 3, 3, "_op") && v.find("mat") == std::string::npos && v.find("vec") == std::string::npos && c.args.size() > 3 && r.chance(1, 3)) { c.args.back() += r.pick(std::vector<std::string>{"@", "+1", "zz", "+", "*2"}); return; } }
  if (c.args.size() < 2 || r.chance(1, 6)) { c.args.push_back("zz@"); return; }
  c.args[r.range(1, (int)c.args.size() - 1)] = r.pick(junk);
}
Args hostile(Rng &r) {
  static const std::vector<std::string> special = {"*", "?", "<", ">", "(", ")", ";", "&", "|", "#", "$x", "$(x)", "`x`", "\\", "'", "\"", "~", "!", "[a-z]", "a b", "", "\n", "\t", "&&", "||", ">>", "2>&1", "${x}", "#c", "'a'", "\"a b\"", "-n", "=", "%", "^"};
  Args a = expand(r, r.pick(std::vector<const char *>{"z_op $i + $i", "z_gcd $I", "f2_p_deg $B", "f2_mat_op det $F", "z_list $i 3", "f2_p_op $b . $b"}), Style(), 2);
  int n = r.range(1, 2);
  for (int i = 0; i < n; i++) {
    std::string w = r.pick(special);
    if (r.chance(1, 4)) w += r.pick(special);
    size_t at = r.below(a.size() + 1);
    if (r.chance(1, 4) && at < a.size()) a[at] += w; else a.insert(a.begin() + at, w);
  }
  return a;
}
static std::string join(const Args &a) { std::string s; for (auto &w : a) { if (!s.empty()) s += ','; for (char c : enc(w)) { if (c == ',') s += "%2c"; else s += c; } } return s; }
static Args unjoin(const std::string &s) { Args a; if (s.empty()) return a; size_t p = 0; for (;;) { size_t e = s.find(',', p); a.push_back(dec(s.substr(p, e == std::string::npos ? e : e - p))); if (e == std::string::npos) break; p = e + 1; } return a; }
void put(Plan &p, const Cmd &c) {
  Line &l = p.add("cmd"); l.set("x_args", join(c.args)); if (!c.in.empty()) l.set("x_in", c.in);
  for (size_t i = 0; i < c.files.size(); i++) { l.set(("x_f" + num(i)).c_str(), c.files[i].first); l.set(("x_c" + num(i)).c_str(), c.files[i].second); }
}
void put_split(Plan &p, const Cmd &c) {
  for (auto &a : c.args) p.add("arg").set("x_w", a);
  if (!c.in.empty()) p.add("stdin").set("x_in", c.in);
  for (auto &f : c.files) { Line &l = p.add("file"); l.set("x_f", f.first); l.set("x_c", f.second); }
}
Cmd get(const Line &l) {
  Cmd c; c.args = unjoin(l.str("x_args")); c.in = l.str("x_in");
  for (int i = 0; i < 9 && l.has(("x_f" + num(i)).c_str()); i++) c.files.push_back({l.str(("x_f" + num(i)).c_str()), l.str(("x_c" + num(i)).c_str())});
  return c;
}
Cmd get_split(const Plan &p) {
  Cmd c; for (auto *l : p.all("arg")) c.args.push_back(l->str("x_w"));
  if (auto *l = p.first("stdin")) c.in = l->str("x_in");
  for (auto *l : p.all("file")) c.files.push_back({l->str("x_f"), l->str("x_c")});
  return c;
}
os::Proc proc(const Cmd &c) {
  os::Proc p; p.argv.push_back("/sim/bin/spiff"); p.argv.insert(p.argv.end(), c.args.begin(), c.args.end());
  p.in = c.in; for (auto &f : c.files) { os::file_put(f.first, f.second); os::file_read_cfg(f.first, os::Delivery()); }
  return p;
}
std::string show(const Args &a) { std::string s; for (auto &w : a) { if (!s.empty()) s += ' '; s += w.find_first_of(" \n\t'") != std::string::npos || w.empty() ? "'" + w + "'" : w; } return s; }
Args words(const std::string &s) {
  Args a; std::string w;
  for (char c : s) if (c == ' ' || c == '\t' || c == '\n') { if (!w.empty()) a.push_back(w); w.clear(); } else w += c;
  if (!w.empty()) a.push_back(w);
  return a;
}
} // namespace sim::cmds
