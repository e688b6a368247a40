//! Program families: small, sharp alphabets of JavaScript, each enumerated
//! exhaustively up to a size.
use crate::progs2::*;
use mccore::Grammar;
use mccore::grammar::Space;

pub struct Family {
  pub name: &'static str,
  pub kind: &'static str,
  pub looping: bool,
  pub tick: bool,
  pub start: &'static str,
  pub cap: usize,
  pub quick: u64,
  pub thorough: u64,
  pub rules: &'static [(&'static str, &'static [&'static str])],
}

impl Family {
  pub fn space(&self, quick: bool) -> Space {
    Grammar::new(self.rules).space(self.start, self.cap, if quick { self.quick } else { self.thorough })
  }
}

pub const FOLD: Family = Family {
  name: "constant-expressions",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 4,
  quick: 60_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:return $E"]),
    (
      "E",
      &[
        "0", "1", "-1", "2", "0.5", "1e21", "NaN", "Infinity", "undefined", "null", "true", "false", "''", "'a'", "'1'", "' 2 '", "'0x10'", "1n", "-0", "[]", "{}.x", "void 0",
        "log(3)", "4294967297", "31",
        "!$E", "-$E", "+$E", "~$E", "typeof $E", "void $E",
        "($E+$E)", "($E-$E)", "($E*$E)", "($E/$E)", "($E%$E)", "($E**$E)", "($E<$E)", "($E>$E)", "($E<=$E)", "($E>=$E)",
        "($E==$E)", "($E!=$E)", "($E===$E)", "($E!==$E)", "($E&$E)", "($E|$E)", "($E^$E)", "($E<<$E)", "($E>>$E)", "($E>>>$E)",
        "($E&&$E)", "($E||$E)", "($E??$E)", "($E,$E)", "($E?$E:$E)",
      ],
    ),
  ],
};

pub const NEST: Family = Family {
  name: "nested-constants",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 6,
  quick: 60_000,
  thorough: 2_000_000,
  rules: &[
    ("P", &["0:let a=2;return $E"]),
    (
      "E",
      &[
        "0", "1", "'a'", "undefined", "a",
        "-$E", "!$E", "typeof $E", "++$E", "$E.length", "$E[0]", "$E?.at(0)",
        "($E+$E)", "($E-$E)", "($E*$E)", "($E**$E)", "($E/$E)", "($E<$E)", "($E===$E)", "($E&&$E)", "($E??$E)", "($E,$E)",
      ],
    ),
  ],
};

pub const FLOW: Family = Family {
  name: "control-flow",
  kind: "fn",
  looping: true,
  tick: false,
  start: "P",
  cap: 9,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:$S", "0:$S$S", "0:$S$S$S"]),
    ("C", &["0:f(0)", "0:f(1)"]),
    ("B", &["0:{$S}", "1:{$S$S}"]),
    (
      "S",
      &[
        "log(1);", "log(2);", "if($C)$S", "if($C)$S else $S", "$B", "return;", "return log(3);", "throw log(4);",
        "while(f(1)){$J}", "do{$J}while($C);", "for(;f(1);log(5)){$J}", "L:{$K}", "try$B catch(e){$S}", "try$B finally{$S}",
        "switch($C){case 0:$W case 1:$W default:$W}", "var x=$C;log(x);", "let y=$C;log(y);",
        "for(var k of[1,2]){log(k);$J}","for(let k in{a:1,b:2}){log(k);$J}",
      ],
    ),
    ("J", &["break;", "$S", "if($C)break;$S", "if($C)continue;$S", "0:log(6);break;"]),
    ("K", &["break L;", "$S", "if($C)break L;$S"]),
    ("W", &["0:", "break;", "0:log(7);", "0:log(8);break;"]),
  ],
};

pub const SCOPE: Family = Family {
  name: "scoping",
  kind: "fn",
  looping: false,
  tick: false,
  start: "P",
  cap: 8,
  quick: 60_000,
  thorough: 1_000_000,
  rules: &[
    ("P", &["0:return (function(){$S})()", "0:return (function(){$S$S})()", "0:return (function(){$S$S$S})()"]),
    ("N", &["0:x", "0:y"]),
    ("E", &["0:1", "0:$N", "typeof $N", "$F", "$N=$E", "$F()", "($E,$E)", "$N($E)", "log($E)"]),
    (
      "F",
      &["function(){$S}", "function $N(){$S}", "($N)=>$E", "function($N){$S}", "($N=$E)=>$E", "function($N,$N){$S}", "({$N})=>$E","(...$N)=>$E","([$N=$E])=>$E"],
    ),
    (
      "S",
      &[
        "0:log($E);", "var $N=$E;", "let $N=$E;", "const $N=$E;", "function $N(){$S}", "{$S$S}", "return $E;",
        "try{$S}catch($N){$S}", "for(let $N of[$E])$T", "for(var $N in{a:1})$T", "class $N{m(){$S}}", "if($E)$T", "var $N;","for(let $N=0,z=1;z--;)$T","$N:{$S break $N}",
        "let {$N,a:$N=$E}={};", "var {a:$N}={a:2};", "try{$S}catch({$N}){$S}", "try{$S}catch{$S}","({$N,a:$N}={a:$E});","log({$N,$N(){$S}});",
      ],
    ),
    ("T", &["0:{$S}"]),
  ],
};

pub const FAMILIES: &[&Family] = &[&FOLD, &NEST, &FLOW, &SCOPE, &PROPS, &CLASSES, &FUNCTIONS, &DECLS, &UNUSED, &DESTRUCT, &DYNAMIC, &LAZY, &MODULE, &SCRIPT, &MNAMES, &SNAMES];
pub const EXTRA: &[(&str, &str)] = &[
  // Known findings outside the families (a fix would contradict frozen snapshots or needs a new HIR node).
  ("fn", "let a;a=()=>1,log(2);return a"),
  ("fn", "for(let x of log(x));"),
  ("fn", "let x=[1];for(let x of x)log(x)"),
  ("fn", "return ((s,...v)=>s.raw[0])`\\x41`"),
  ("fn", "let a;return(a?.b).c"),
  ("fn", "return [...function*(undefined){yield}(1)]"),
];
