------------------------------ MODULE Driver ------------------------------
(* What every generator shares: which cases this process draws, and where    *)
(* they go. Cases are numbered from 0; process SHARD of SHARDS draws those     *)
(* numbers that are SHARD modulo SHARDS, up to COUNT.                            *)
EXTENDS Node, IOUtils, Json, CSV

Has(name) == name \in DOMAIN IOEnv
EnvNum(name, default) == IF Has(name) THEN atoi(IOEnv[name]) ELSE default
Shard == EnvNum("SHARD", 0)
Shards == EnvNum("SHARDS", 1)
Total == EnvNum("COUNT", 10)
RunSeed == EnvNum("VERIF_SEED", 1)
Plan == IF Has("PLAN") THEN IOEnv.PLAN ELSE "default"
OutFile == IF Has("OUT") THEN IOEnv.OUT ELSE "/tmp/out.ndjson"
Emit(case) == CSVWrite("%1$s", <<ToJson(case)>>, OutFile)
CaseSeed(i) == Seed(RunSeed * 7 + 3, i)
============================================================================
