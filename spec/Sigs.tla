---- MODULE Sigs ----
EXTENDS Integers
(* Published signatures of built-in functions: least and greatest number of arguments (-1: any), the types of each parameter
   ({}: any; "?t": the default is of type t), and whether a call does nothing but compute.  Written by tools/sigs.py. *)
Sigs == <<
  [n |-> "Array.concat", lo |-> 0, hi |-> -1, pure |-> TRUE, ps |-> <<>>],
  [n |-> "Array.every", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"function"}>>],
  [n |-> "Array.fill", lo |-> 1, hi |-> 3, pure |-> FALSE, ps |-> <<{"any"}, {"number"}, {"number"}>>],
  [n |-> "Array.filter", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"object", "?undefined"}>>],
  [n |-> "Array.find", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"function"}>>],
  [n |-> "Array.findIndex", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"function"}>>],
  [n |-> "Array.flat", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"number"}>>],
  [n |-> "Array.forEach", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"object", "?undefined"}>>],
  [n |-> "Array.includes", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"any"}>>],
  [n |-> "Array.indexOf", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"any"}, {"number"}>>],
  [n |-> "Array.isArray", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Array.join", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "Array.lastIndexOf", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"any"}, {"number"}>>],
  [n |-> "Array.map", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"object", "?undefined"}>>],
  [n |-> "Array.pop", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Array.push", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "Array.reduce", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"any"}>>],
  [n |-> "Array.reduceRight", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"any"}>>],
  [n |-> "Array.reverse", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Array.shift", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Array.sizeOf", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Array.slice", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"number"}, {"number", "?undefined"}>>],
  [n |-> "Array.some", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"object", "?undefined"}>>],
  [n |-> "Array.sort", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"function", "object", "?undefined"}>>],
  [n |-> "Array.splice", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}, {}>>],
  [n |-> "Array.unshift", lo |-> 0, hi |-> -1, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Event.clearInterval", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"number"}>>],
  [n |-> "Event.info", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"number"}>>],
  [n |-> "Event.names", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Event.setInterval", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"number"}>>],
  [n |-> "Event.setTimeout", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"number"}>>],
  [n |-> "File.atime", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.chdir", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.chmod", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"number"}>>],
  [n |-> "File.copy", lo |-> 2, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"string"}, {"boolean"}>>],
  [n |-> "File.dirname", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "File.executable", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.exists", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "File.extension", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "File.glob", lo |-> 0, hi |-> 2, pure |-> FALSE, ps |-> <<{"regexp", "string", "object", "null"}, {"function", "object", "null", "?undefined"}>>],
  [n |-> "File.isdir", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.isfile", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.isrelative", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.join", lo |-> 2, hi |-> 2, pure |-> TRUE, ps |-> <<{"string"}, {"string"}>>],
  [n |-> "File.link", lo |-> 2, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"string"}, {"boolean"}>>],
  [n |-> "File.lstat", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.mkdir", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"boolean"}>>],
  [n |-> "File.mknod", lo |-> 3, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"number"}, {"number"}>>],
  [n |-> "File.mtime", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.normalize", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "File.owned", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.perms", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.pwd", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "File.read", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"string"}>>],
  [n |-> "File.readable", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.readlink", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.realpath", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.remove", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"boolean"}>>],
  [n |-> "File.rename", lo |-> 2, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"string"}, {"boolean"}>>],
  [n |-> "File.rootname", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "File.size", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.stat", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.tail", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "File.tempfile", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.truncate", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"number"}>>],
  [n |-> "File.writable", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "File.write", lo |-> 2, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"string"}, {"string"}>>],
  [n |-> "Info.argv0", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.cmds", lo |-> 0, hi |-> 2, pure |-> FALSE, ps |-> <<{"string", "regexp"}, {"object", "?undefined"}>>],
  [n |-> "Info.completions", lo |-> 1, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"number"}, {"number", "?undefined"}>>],
  [n |-> "Info.data", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "regexp", "object", "?undefined"}>>],
  [n |-> "Info.error", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.event", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"number", "?undefined"}>>],
  [n |-> "Info.execZip", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.executable", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.files", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.funcs", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "regexp", "function", "object", "?undefined"}>>],
  [n |-> "Info.interp", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"userobj", "?undefined"}>>],
  [n |-> "Info.isMain", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.keywords", lo |-> 0, hi |-> 2, pure |-> FALSE, ps |-> <<{"?any"}, {"string", "?undefined"}>>],
  [n |-> "Info.level", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"number", "?undefined"}>>],
  [n |-> "Info.locals", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"boolean", "?undefined"}>>],
  [n |-> "Info.lookup", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Info.methods", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "regexp"}>>],
  [n |-> "Info.named", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "?undefined"}>>],
  [n |-> "Info.obj", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"object"}>>],
  [n |-> "Info.options", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"boolean"}>>],
  [n |-> "Info.package", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Info.platform", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.script", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"function", "regexp", "?undefined"}>>],
  [n |-> "Info.scriptDir", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Info.vars", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "regexp", "object", "?undefined"}>>],
  [n |-> "Info.version", lo |-> 0, hi |-> 2, pure |-> FALSE, ps |-> <<{"boolean", "number", "string"}, {"number", "string", "?undefined"}>>],
  [n |-> "JSON.check", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"string"}, {"boolean"}>>],
  [n |-> "JSON.parse", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"string"}, {"boolean"}>>],
  [n |-> "JSON.stringify", lo |-> 1, hi |-> 3, pure |-> TRUE, ps |-> <<{"any"}, {"null", "boolean"}, {"number"}>>],
  [n |-> "Math.abs", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.acos", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.asin", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.atan", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.atan2", lo |-> 2, hi |-> 2, pure |-> TRUE, ps |-> <<{"number"}, {"number"}>>],
  [n |-> "Math.ceil", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.cos", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.exp", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.floor", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.log", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.max", lo |-> 2, hi |-> -1, pure |-> TRUE, ps |-> <<{"number"}, {}>>],
  [n |-> "Math.min", lo |-> 2, hi |-> -1, pure |-> TRUE, ps |-> <<{"number"}, {}>>],
  [n |-> "Math.pow", lo |-> 2, hi |-> 2, pure |-> TRUE, ps |-> <<{"number"}, {"number"}>>],
  [n |-> "Math.random", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "Math.round", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.sin", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.sqrt", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.srand", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Math.tan", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Number.isFinite", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "Number.isInteger", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "Number.isNaN", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "Number.isSafeInteger", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "Number.toExponential", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Number.toFixed", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Number.toPrecision", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Number.toString", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "Object.assign", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "Object.create", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"null", "object"}, {"object", "?undefined"}>>],
  [n |-> "Object.freeze", lo |-> 1, hi |-> 4, pure |-> FALSE, ps |-> <<{"object"}, {"boolean"}, {"boolean"}, {"boolean"}>>],
  [n |-> "Object.getPrototypeOf", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"object", "function"}>>],
  [n |-> "Object.hasOwnProperty", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Object.is", lo |-> 2, hi |-> 2, pure |-> TRUE, ps |-> <<{}, {}>>],
  [n |-> "Object.isPrototypeOf", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "Object.keys", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"object", "function", "array"}>>],
  [n |-> "Object.merge", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"object", "function"}>>],
  [n |-> "Object.propertyIsEnumerable", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "Object.setPrototypeOf", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"object"}, {"object"}>>],
  [n |-> "Object.toLocaleString", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"boolean"}>>],
  [n |-> "Object.toString", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"boolean"}>>],
  [n |-> "Object.valueOf", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Object.values", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"object"}>>],
  [n |-> "String.charAt", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "String.charCodeAt", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "String.concat", lo |-> 0, hi |-> -1, pure |-> TRUE, ps |-> <<{}>>],
  [n |-> "String.indexOf", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"string"}, {"number"}>>],
  [n |-> "String.lastIndexOf", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"string"}, {"number"}>>],
  [n |-> "String.map", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"array"}, {"boolean"}>>],
  [n |-> "String.match", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"regexp", "string"}>>],
  [n |-> "String.repeat", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"number"}>>],
  [n |-> "String.replace", lo |-> 2, hi |-> 2, pure |-> TRUE, ps |-> <<{"regexp", "string"}, {"string", "function"}>>],
  [n |-> "String.search", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"regexp", "string"}>>],
  [n |-> "String.slice", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"number"}, {"number"}>>],
  [n |-> "String.split", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"string", "null", "?undefined"}>>],
  [n |-> "String.substr", lo |-> 0, hi |-> 2, pure |-> TRUE, ps |-> <<{"number"}, {"number"}>>],
  [n |-> "String.substring", lo |-> 0, hi |-> 2, pure |-> TRUE, ps |-> <<{"number"}, {"number"}>>],
  [n |-> "String.toLocaleLowerCase", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "String.toLocaleUpperCase", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "String.toLowerCase", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "String.toTitle", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "String.toUpperCase", lo |-> 0, hi |-> 0, pure |-> TRUE, ps |-> <<>>],
  [n |-> "String.trim", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "String.trimLeft", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "String.trimRight", lo |-> 0, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "Util.argArray", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"any", "undefined"}>>],
  [n |-> "Util.base64", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"string"}, {"boolean"}>>],
  [n |-> "Util.complete", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Util.crc32", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"string"}, {"?any"}>>],
  [n |-> "Util.dbgAdd", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string", "number"}, {"boolean"}>>],
  [n |-> "Util.dbgEnable", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"number"}, {"boolean"}>>],
  [n |-> "Util.dbgInfo", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"number", "?undefined"}>>],
  [n |-> "Util.dbgRemove", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"number"}>>],
  [n |-> "Util.decrypt", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"string"}>>],
  [n |-> "Util.encrypt", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"string"}>>],
  [n |-> "Util.getenv", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "?undefined"}>>],
  [n |-> "Util.getpid", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"boolean"}>>],
  [n |-> "Util.getuser", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Util.hash", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"object", "?undefined"}>>],
  [n |-> "Util.hexStr", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"boolean"}>>],
  [n |-> "Util.setenv", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"string", "?undefined"}>>],
  [n |-> "Util.sqlValues", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"object", "?undefined"}>>],
  [n |-> "Util.times", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function", "boolean"}, {"number"}>>],
  [n |-> "Util.verConvert", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string", "number"}, {"number"}>>],
  [n |-> "Util.vueConvert", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"string", "null", "?undefined"}>>],
  [n |-> "Vfs.conf", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"string", "object", "string", "?undefined"}>>],
  [n |-> "Vfs.exec", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Vfs.fileconf", lo |-> 2, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"string"}, {"string", "object", "?undefined"}>>],
  [n |-> "Vfs.list", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "Vfs.mount", lo |-> 2, hi |-> 3, pure |-> FALSE, ps |-> <<{"string"}, {"string"}, {"object", "?undefined"}>>],
  [n |-> "Vfs.type", lo |-> 0, hi |-> 2, pure |-> FALSE, ps |-> <<{"string", "?undefined"}, {"object", "null", "?undefined"}>>],
  [n |-> "Vfs.unmount", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Vfs.vmount", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"object", "?undefined"}>>],
  [n |-> "Zvfs.append", lo |-> 2, hi |-> -1, pure |-> FALSE, ps |-> <<{"string"}, {}, {}, {}, {}>>],
  [n |-> "Zvfs.create", lo |-> 2, hi |-> -1, pure |-> FALSE, ps |-> <<{"string"}, {}, {}, {}, {}>>],
  [n |-> "Zvfs.deflate", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Zvfs.inflate", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Zvfs.list", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "?undefined"}>>],
  [n |-> "Zvfs.mount", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"string", "?undefined"}>>],
  [n |-> "Zvfs.names", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "?undefined"}>>],
  [n |-> "Zvfs.offset", lo |-> 0, hi |-> 1, pure |-> FALSE, ps |-> <<{"string", "?undefined"}>>],
  [n |-> "Zvfs.stat", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "Zvfs.truncate", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"boolean"}>>],
  [n |-> "Zvfs.unmount", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "clearInterval", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"number"}>>],
  [n |-> "console.error", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "console.log", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "console.logp", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "console.printf", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "console.puts", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "console.warn", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "decodeURI", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "decodeURIComponent", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "encodeURI", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "encodeURIComponent", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "format", lo |-> 1, hi |-> -1, pure |-> TRUE, ps |-> <<{}>>],
  [n |-> "getOpts", lo |-> 2, hi |-> 3, pure |-> FALSE, ps |-> <<{"object"}, {"object"}, {"object"}>>],
  [n |-> "import", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string"}, {"object", "?undefined"}>>],
  [n |-> "isFinite", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{}>>],
  [n |-> "isMain", lo |-> 0, hi |-> 0, pure |-> FALSE, ps |-> <<>>],
  [n |-> "isNaN", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{}>>],
  [n |-> "load", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>],
  [n |-> "log", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "matchObj", lo |-> 1, hi |-> 4, pure |-> FALSE, ps |-> <<{"object"}, {"string", "?undefined"}, {"?any"}, {"?any"}>>],
  [n |-> "module", lo |-> 1, hi |-> 3, pure |-> FALSE, ps |-> <<{"string", "function"}, {"number", "string"}, {"object", "?undefined"}>>],
  [n |-> "moduleOpts", lo |-> 1, hi |-> 3, pure |-> FALSE, ps |-> <<{"object"}, {"object", "userobj", "?undefined"}, {"object", "null", "undefined"}>>],
  [n |-> "moduleRun", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string", "function"}, {"array", "?undefined"}>>],
  [n |-> "noOp", lo |-> 0, hi |-> -1, pure |-> TRUE, ps |-> <<>>],
  [n |-> "parseFloat", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{}>>],
  [n |-> "parseInt", lo |-> 1, hi |-> 2, pure |-> TRUE, ps |-> <<{"any"}, {"number"}>>],
  [n |-> "printf", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "provide", lo |-> 0, hi |-> 3, pure |-> FALSE, ps |-> <<{"string", "function", "?undefined"}, {"number", "string"}, {"object", "?undefined"}>>],
  [n |-> "puts", lo |-> 1, hi |-> -1, pure |-> FALSE, ps |-> <<{}>>],
  [n |-> "quote", lo |-> 1, hi |-> 1, pure |-> TRUE, ps |-> <<{"string"}>>],
  [n |-> "require", lo |-> 0, hi |-> 3, pure |-> FALSE, ps |-> <<{"string", "?undefined"}, {"number", "string"}, {"object", "?undefined"}>>],
  [n |-> "setInterval", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"number"}>>],
  [n |-> "setTimeout", lo |-> 2, hi |-> 2, pure |-> FALSE, ps |-> <<{"function"}, {"number"}>>],
  [n |-> "source", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"string", "array"}, {"object", "?undefined"}>>],
  [n |-> "strftime", lo |-> 0, hi |-> 2, pure |-> FALSE, ps |-> <<{"number", "?null"}, {"string", "object", "?undefined"}>>],
  [n |-> "strptime", lo |-> 0, hi |-> 2, pure |-> FALSE, ps |-> <<{"string", "?undefined"}, {"string", "object", "?undefined"}>>],
  [n |-> "times", lo |-> 1, hi |-> 2, pure |-> FALSE, ps |-> <<{"function", "boolean"}, {"number"}>>],
  [n |-> "unload", lo |-> 1, hi |-> 1, pure |-> FALSE, ps |-> <<{"string"}>>]
>>
====
