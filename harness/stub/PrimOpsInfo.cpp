// Stand-in for the table that PrimOpsInfoGen prints from the Nix libraries.
#include "nixf/Sema/PrimOpInfo.h"

std::map<std::string, nixf::PrimOpInfo> nixf::PrimOpsInfo = {
  {"abort", {{"s"}, 1, R"x(Documentation of `abort`.)x", false}},
  {"__add", {{"e1", "e2"}, 2, R"x(Documentation of `__add`.)x", false}},
  {"__addDrvOutputDependencies", {{"s"}, 1, R"x(Documentation of `__addDrvOutputDependencies`.)x", false}},
  {"__addErrorContext", {{"context", "value"}, 2, R"x(Documentation of `__addErrorContext`.)x", false}},
  {"__all", {{"pred", "list"}, 2, R"x(Documentation of `__all`.)x", false}},
  {"__any", {{"pred", "list"}, 2, R"x(Documentation of `__any`.)x", false}},
  {"__appendContext", {{"s", "c"}, 2, R"x(Documentation of `__appendContext`.)x", false}},
  {"__attrNames", {{"set"}, 1, R"x(Documentation of `__attrNames`.)x", false}},
  {"__attrValues", {{"set"}, 1, R"x(Documentation of `__attrValues`.)x", false}},
  {"baseNameOf", {{"x"}, 1, R"x(Documentation of `baseNameOf`.)x", false}},
  {"__bitAnd", {{"e1", "e2"}, 2, R"x(Documentation of `__bitAnd`.)x", false}},
  {"__bitOr", {{"e1", "e2"}, 2, R"x(Documentation of `__bitOr`.)x", false}},
  {"__bitXor", {{"e1", "e2"}, 2, R"x(Documentation of `__bitXor`.)x", false}},
  {"break", {{"v"}, 1, R"x(Documentation of `break`.)x", false}},
  {"__catAttrs", {{"attr", "list"}, 2, R"x(Documentation of `__catAttrs`.)x", false}},
  {"__ceil", {{"double"}, 1, R"x(Documentation of `__ceil`.)x", false}},
  {"__compareVersions", {{"s1", "s2"}, 2, R"x(Documentation of `__compareVersions`.)x", false}},
  {"__concatLists", {{"lists"}, 1, R"x(Documentation of `__concatLists`.)x", false}},
  {"__concatMap", {{"f", "list"}, 2, R"x(Documentation of `__concatMap`.)x", false}},
  {"__concatStringsSep", {{"separator", "list"}, 2, R"x(Documentation of `__concatStringsSep`.)x", false}},
  {"__convertHash", {{"args"}, 1, R"x(Documentation of `__convertHash`.)x", false}},
  {"__deepSeq", {{"e1", "e2"}, 2, R"x(Documentation of `__deepSeq`.)x", false}},
  {"derivationStrict", {{"drvAttrs"}, 1, R"x(Documentation of `derivationStrict`.)x", false}},
  {"dirOf", {{"s"}, 1, R"x(Documentation of `dirOf`.)x", false}},
  {"__div", {{"e1", "e2"}, 2, R"x(Documentation of `__div`.)x", false}},
  {"__elem", {{"x", "xs"}, 2, R"x(Documentation of `__elem`.)x", false}},
  {"__elemAt", {{"xs", "n"}, 2, R"x(Documentation of `__elemAt`.)x", false}},
  {"fetchGit", {{"args"}, 1, R"x(Documentation of `fetchGit`.)x", false}},
  {"fetchMercurial", {{"args"}, 1, R"x(Documentation of `fetchMercurial`.)x", false}},
  {"fetchTarball", {{"args"}, 1, R"x(Documentation of `fetchTarball`.)x", false}},
  {"fetchTree", {{"input"}, 1, R"x(Documentation of `fetchTree`.)x", false}},
  {"__fetchurl", {{"arg"}, 1, R"x(Documentation of `__fetchurl`.)x", false}},
  {"__filter", {{"f", "list"}, 2, R"x(Documentation of `__filter`.)x", false}},
  {"__filterSource", {{"e1", "e2"}, 2, R"x(Documentation of `__filterSource`.)x", false}},
  {"__findFile", {{"search-path", "lookup-path"}, 2, R"x(Documentation of `__findFile`.)x", false}},
  {"__floor", {{"double"}, 1, R"x(Documentation of `__floor`.)x", false}},
  {"__foldl'", {{"op", "nul", "list"}, 3, R"x(Documentation of `__foldl'`.)x", false}},
  {"__fromJSON", {{"e"}, 1, R"x(Documentation of `__fromJSON`.)x", false}},
  {"fromTOML", {{"e"}, 1, R"x(Documentation of `fromTOML`.)x", false}},
  {"__functionArgs", {{"f"}, 1, R"x(Documentation of `__functionArgs`.)x", false}},
  {"__genList", {{"generator", "length"}, 2, R"x(Documentation of `__genList`.)x", false}},
  {"__genericClosure", {{"attrset"}, 1, R"x(Documentation of `__genericClosure`.)x", false}},
  {"__getAttr", {{"s", "set"}, 2, R"x(Documentation of `__getAttr`.)x", false}},
  {"__getContext", {{"s"}, 1, R"x(Documentation of `__getContext`.)x", false}},
  {"__getEnv", {{"s"}, 1, R"x(Documentation of `__getEnv`.)x", false}},
  {"__groupBy", {{"f", "list"}, 2, R"x(Documentation of `__groupBy`.)x", false}},
  {"__hasAttr", {{"s", "set"}, 2, R"x(Documentation of `__hasAttr`.)x", false}},
  {"__hasContext", {{"s"}, 1, R"x(Documentation of `__hasContext`.)x", false}},
  {"__hashFile", {{"type", "p"}, 2, R"x(Documentation of `__hashFile`.)x", false}},
  {"__hashString", {{"type", "s"}, 2, R"x(Documentation of `__hashString`.)x", false}},
  {"__head", {{"list"}, 1, R"x(Documentation of `__head`.)x", false}},
  {"import", {{"path"}, 1, R"x(Documentation of `import`.)x", false}},
  {"__intersectAttrs", {{"e1", "e2"}, 2, R"x(Documentation of `__intersectAttrs`.)x", false}},
  {"__isAttrs", {{"e"}, 1, R"x(Documentation of `__isAttrs`.)x", false}},
  {"__isBool", {{"e"}, 1, R"x(Documentation of `__isBool`.)x", false}},
  {"__isFloat", {{"e"}, 1, R"x(Documentation of `__isFloat`.)x", false}},
  {"__isFunction", {{"e"}, 1, R"x(Documentation of `__isFunction`.)x", false}},
  {"__isInt", {{"e"}, 1, R"x(Documentation of `__isInt`.)x", false}},
  {"__isList", {{"e"}, 1, R"x(Documentation of `__isList`.)x", false}},
  {"isNull", {{"e"}, 1, R"x(Documentation of `isNull`.)x", false}},
  {"__isPath", {{"e"}, 1, R"x(Documentation of `__isPath`.)x", false}},
  {"__isString", {{"e"}, 1, R"x(Documentation of `__isString`.)x", false}},
  {"__length", {{"e"}, 1, R"x(Documentation of `__length`.)x", false}},
  {"__lessThan", {{"e1", "e2"}, 2, R"x(Documentation of `__lessThan`.)x", false}},
  {"__listToAttrs", {{"e"}, 1, R"x(Documentation of `__listToAttrs`.)x", false}},
  {"map", {{"f", "list"}, 2, R"x(Documentation of `map`.)x", false}},
  {"__mapAttrs", {{"f", "attrset"}, 2, R"x(Documentation of `__mapAttrs`.)x", false}},
  {"__match", {{"regex", "str"}, 2, R"x(Documentation of `__match`.)x", false}},
  {"__mul", {{"e1", "e2"}, 2, R"x(Documentation of `__mul`.)x", false}},
  {"__outputOf", {{"derivation-reference", "output-name"}, 2, R"x(Documentation of `__outputOf`.)x", false}},
  {"__parseDrvName", {{"s"}, 1, R"x(Documentation of `__parseDrvName`.)x", false}},
  {"__parseFlakeRef", {{"flake-ref"}, 1, R"x(Documentation of `__parseFlakeRef`.)x", false}},
  {"__flakeRefToString", {{"attrs"}, 1, R"x(Documentation of `__flakeRefToString`.)x", false}},
  {"__getFlake", {{"args"}, 1, R"x(Documentation of `__getFlake`.)x", false}},
  {"__partition", {{"pred", "list"}, 2, R"x(Documentation of `__partition`.)x", false}},
  {"__path", {{"args"}, 1, R"x(Documentation of `__path`.)x", false}},
  {"__pathExists", {{"path"}, 1, R"x(Documentation of `__pathExists`.)x", false}},
  {"placeholder", {{"output"}, 1, R"x(Documentation of `placeholder`.)x", false}},
  {"__readDir", {{"path"}, 1, R"x(Documentation of `__readDir`.)x", false}},
  {"__readFile", {{"path"}, 1, R"x(Documentation of `__readFile`.)x", false}},
  {"__readFileType", {{"p"}, 1, R"x(Documentation of `__readFileType`.)x", false}},
  {"removeAttrs", {{"set", "list"}, 2, R"x(Documentation of `removeAttrs`.)x", false}},
  {"__replaceStrings", {{"from", "to", "s"}, 3, R"x(Documentation of `__replaceStrings`.)x", false}},
  {"scopedImport", {{"scope", "path"}, 2, R"x(Documentation of `scopedImport`.)x", false}},
  {"__seq", {{"e1", "e2"}, 2, R"x(Documentation of `__seq`.)x", false}},
  {"__sort", {{"comparator", "list"}, 2, R"x(Documentation of `__sort`.)x", false}},
  {"__split", {{"regex", "str"}, 2, R"x(Documentation of `__split`.)x", false}},
  {"__splitVersion", {{"s"}, 1, R"x(Documentation of `__splitVersion`.)x", false}},
  {"__storePath", {{"path"}, 1, R"x(Documentation of `__storePath`.)x", false}},
  {"__stringLength", {{"e"}, 1, R"x(Documentation of `__stringLength`.)x", false}},
  {"__sub", {{"e1", "e2"}, 2, R"x(Documentation of `__sub`.)x", false}},
  {"__substring", {{"start", "len", "s"}, 3, R"x(Documentation of `__substring`.)x", false}},
  {"__tail", {{"list"}, 1, R"x(Documentation of `__tail`.)x", false}},
  {"throw", {{"s"}, 1, R"x(Documentation of `throw`.)x", false}},
  {"__toFile", {{"name", "s"}, 2, R"x(Documentation of `__toFile`.)x", false}},
  {"__toJSON", {{"e"}, 1, R"x(Documentation of `__toJSON`.)x", false}},
  {"__toPath", {{"s"}, 1, R"x(Documentation of `__toPath`.)x", false}},
  {"toString", {{"e"}, 1, R"x(Documentation of `toString`.)x", false}},
  {"__toXML", {{"e"}, 1, R"x(Documentation of `__toXML`.)x", false}},
  {"__trace", {{"e1", "e2"}, 2, R"x(Documentation of `__trace`.)x", false}},
  {"__tryEval", {{"e"}, 1, R"x(Documentation of `__tryEval`.)x", false}},
  {"__typeOf", {{"e"}, 1, R"x(Documentation of `__typeOf`.)x", false}},
  {"__unsafeDiscardOutputDependency", {{"s"}, 1, R"x(Documentation of `__unsafeDiscardOutputDependency`.)x", false}},
  {"__unsafeDiscardStringContext", {{"s"}, 1, R"x(Documentation of `__unsafeDiscardStringContext`.)x", false}},
  {"__unsafeGetAttrPos", {{"s", "set"}, 2, R"x(Documentation of `__unsafeGetAttrPos`.)x", false}},
  {"__warn", {{"e1", "e2"}, 2, R"x(Documentation of `__warn`.)x", false}},
  {"__zipAttrsWith", {{"f", "list"}, 2, R"x(Documentation of `__zipAttrsWith`.)x", false}},
  {"__fetchClosure", {{"args"}, 1, R"x(Documentation of `__fetchClosure`.)x", false}},
  {"__fetchFinalTree", {{"input"}, 1, R"x(Documentation of `__fetchFinalTree`.)x", true}},
  {"__valueSize", {{"value"}, 1, R"x(Documentation of `__valueSize`.)x", true}},
};
