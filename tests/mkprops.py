import json
A="palworld_save_tools/archive.py"; G="palworld_save_tools/gvas.py"; P="palworld_save_tools/paltypes.py"; S="palworld_save_tools/palsav.py"; C="palworld_save_tools/commands/convert.py"; RT="palworld_save_tools/commands/resave_test.py"; J="palworld_save_tools/json_tools.py"
R=lambda *n:["palworld_save_tools/rawdata/%s.py"%x for x in n]
ALLR=R("character","group","item_container","item_container_slots","character_container","dynamic_item","base_camp","worker_director","work_collection","base_camp_module","work","map_object","map_model","map_concrete_model","map_concrete_model_module","build_process","connector","foliage_model","foliage_model_instance","common")
props=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})
RTO=["bytes of a save (after decompression)","JSON text as the converter writes it","bytes written from that JSON"]
p("C01","Property trees survive SAV to JSON to SAV unchanged",
 "Converting any well-formed GVAS file made of generic tagged properties (all property kinds, structs, arrays and maps at any nesting, any header values, any trailer) to JSON and back gives the same bytes. It does so with either of the package's two GUID implementations (standard library and third-party fallback).",
 ["inputs"],"all files of the generic layout: every value of every number, flag, GUID, string and identifier, every nesting of kinds within the bounds, with and without optional GUIDs, any header and trailer",
 "Tests convert a handful of sample saves; a size field, sign, optional GUID, string encoding or nesting that the samples do not contain is never executed.",
 [A,G,P,J],[("reader and writer of tagged properties","FArchiveReader.property, FArchiveWriter.property in archive.py"),("GvasFile.read/dump/load/write","gvas.py"),("type hints for map sides","PALWORLD_TYPE_HINTS in paltypes.py"),("JSON of GUIDs","json_tools.CustomEncoder")],RTO)
p("C02","Character, group and container records survive the round trip",
 "A save that holds characters, groups, item containers and slots, character container slots or dynamic items of any content the layouts allow converts to JSON and back to the same bytes. This covers every group type, every dynamic item form (armor, weapon, egg, undecodable) and empty payloads.",
 ["inputs"],"every value of every field of these records, any number of elements in their lists within the bounds, every kind of string",
 "The unit tests hold one or two records of some of these types; other group types, item forms, list lengths and values are not run.",
 R("character","group","item_container","item_container_slots","character_container","dynamic_item")+[A,P],
 [("decode/encode pairs","rawdata modules"),("dispatch by path","PALWORLD_CUSTOM_PROPERTIES in paltypes.py")],RTO)
p("C03","Base camp and work records survive the round trip",
 "A save that holds base camps, worker directors, work collections, base camp modules or work entries of any content the layouts allow, including module and work types that the tool keeps as raw bytes, converts to JSON and back to the same bytes.",
 ["inputs"],"every value of every field, every module type and work type, every work transform type, any number of list elements within the bounds",
 "The tests sample single records; most work types, transform types and module types never occur in them.",
 R("base_camp","worker_director","work_collection","base_camp_module","work")+[A,P],
 [("decode/encode pairs","rawdata modules"),("work type and transform type tables","rawdata/work.py"),("module type tables","rawdata/base_camp_module.py")],RTO)
p("C04","Map objects and foliage survive the round trip",
 "A save that holds map objects (with any object id, concrete model, connectors, effects and modules, known to the tool or not) or foliage models and instances with their bit-packed transforms of any content the layouts allow converts to JSON and back to the same bytes.",
 ["inputs"],"every object id of the tool's name table in any letter case and unknown ids, every concrete model class, every module type, connector counts, packed vector widths and compressed rotations",
 "There are hundreds of object ids and dozens of layouts; the tests run a few.",
 R("build_process","connector","map_concrete_model","map_concrete_model_module","map_model","map_object","foliage_model","foliage_model_instance","common")+[A,P],
 [("object id to model class table","rawdata/map_concrete_model.py"),("packed vectors and compressed rotators","archive.py"),("decode/encode pairs","rawdata modules")],RTO)
p("C05","The JSON shows exactly what the save stores",
 "For every well-formed save, each value in the JSON is the stored value under its documented name: integers with the right width and sign, floats exactly, GUIDs and strings as stored, list elements in order, map object layouts chosen by the object's class. Nothing is invented, swapped, shifted or dropped, so users and tools that read the JSON see the truth.",
 ["inputs"],"every value of every field of every generic property and every decoded record within the bounds",
 "A round trip hides a reader error that the writer undoes (swapped fields, wrong sign, wrong name); the few tests that check decoded values fix one value each.",
 [A,G,P]+ALLR,[("readers","FArchiveReader in archive.py"),("record decoders","rawdata modules")],["JSON text as the converter writes it"])
p("C06","Edits of decoded records in the JSON take effect exactly",
 "A JSON file in the documented layout, whatever values a user has put into the fields of the decoded records, is written to the save as exactly those values: every field at its place in the record, list lengths as in the JSON, and nothing else changed. JSON files written by older versions of the tool (work transforms without the v2 mark) are written back in the layout that those versions read.",
 ["inputs"],"every in-range value of every field, any list lengths within the bounds, every record type and variant",
 "Tests only write back what was just read; changed values, lengths and JSON from older versions are not written.",
 ALLR+[A,P],[("record encoders","rawdata modules"),("legacy transform branch","rawdata/work.py")],["bytes written from the JSON"])
p("C07","Edited property trees are written with consistent sizes and counts",
 "Changing, adding, deleting, replacing or reordering properties and elements in the JSON at any depth, including inside a decoded record, gives a save whose every size and count field is that of the new contents and whose other bytes are unchanged. The written save is the one that the game would have to hold those contents.",
 ["inputs","histories"],"every property kind edited to any in-range value, elements added to or removed from every array and map kind, at the top level, in nested structs, in struct arrays, in maps and inside character records",
 "Tests never edit: sizes and counts that are copied instead of computed would go unseen.",
 [A,G]+R("character"),[("size back-patching","FArchiveWriter.property_inner, map and array writers in archive.py")],["bytes written from the edited JSON"])
p("C08","Unknown, truncated or over-long data is never silently lost",
 "When a save is cut off, when a record is longer or shorter than its known layout, or when it uses a property, struct, array or map type that the tool does not know, the conversion either fails or keeps every byte: reading and writing back never yields different contents without an error.",
 ["inputs","fault_sequences"],"every record with extra or missing bytes of any value, saves cut at any point, any unknown type name with any body, within the bounds",
 "Tests only use complete data of known types.",
 [A,G]+ALLR,[("end-of-data checks","rawdata decoders"),("unknown type errors","archive.py"),("raw byte fallbacks","rawdata/work.py, base_camp_module.py, map_concrete_model.py, dynamic_item.py")],["bytes after a round trip, or the error"])
p("C09","Strings of every length and alphabet are kept exactly",
 "Every stored string (empty, ASCII, UTF-16 with any code units including unpaired surrogates) is decoded to its text, written back byte for byte and followed by the right next field; every text that can stand in a JSON file can be written and is read back the same. A string that claims to be longer than the data is refused.",
 ["inputs"],"all contents of strings up to the stated lengths, in both encodings, wherever a string can stand in a save",
 "Tests use a few readable names; non-ASCII text, surrogates and boundary lengths are hardly covered.",
 [A],[("string reader and writer","fstring in archive.py")],["FArchiveReader.fstring, FArchiveWriter.fstring and saves that contain strings"])
p("C10","Numbers are exact, and integers that do not fit are refused",
 "Every integer and float of every width is read as its value and written back bit for bit; a number put into the JSON that its field cannot hold is refused with an error instead of being wrapped, truncated or written into neighbouring fields, and any number that is accepted reads back as written (single-precision fields: as the nearest single).",
 ["inputs"],"all bit patterns of all numeric kinds; for number fields of trees and records, all integers of a much wider range and all doubles",
 "2^64 values and hundreds of fields; tests fix a few.",
 [A]+ALLR,[("number readers and writers","archive.py"),("byte lists","rawdata modules")],["written bytes, or the error"])
p("C11","--convert-nan-to-null turns non-finite numbers, and only them, into null",
 "With the option, NaN and the infinities become null in the JSON, the JSON is strictly valid, every finite number and all else is unchanged, and null is written back as NaN at the same place. Without it all numbers appear as they are.",
 ["inputs","configurations"],"any value of every float and double field of the generic properties and the decoded records",
 "Tests do not use the option on records, nor with NaN or infinities in each field.",
 [A,C]+ALLR,[("float filters","FArchiveReader.float/double in archive.py"),("allow_nan","commands/convert.py, internal_copy in archive.py")],["JSON text, bytes written from it"])
p("C12","GUIDs map one-to-one between bytes and text",
 "Every 16-byte GUID has exactly one canonical lower-case text, which names the same bytes again; any letter case and dash form of a text names the same GUID. Equality and hashing agree with the bytes, and this holds for both GUID implementations, wherever GUIDs are read, compared, shown or written.",
 ["inputs","configurations"],"all 2^128 GUIDs (and pairs of them), all 32-digit texts, both implementations",
 "A few fixed GUIDs are tested, and only one of the two implementations is importable in a test run.",
 [A,J],[("UUID class","archive.py"),("uuid_reader, uuid_writer","archive.py"),("JSON encoder","json_tools.py")],["UUID, FArchiveReader.guid, FArchiveWriter.guid, JSON text"])
p("C13","The compressed container is read and written faithfully or refused",
 "Data packed into a save (single or double compression) is a well-formed container of exactly that data and type and unpacks to it; every well-formed container, also with the chunk prefix, unpacks to what it holds. A container whose length fields, magic or type are false, one that is cut short, and a content that is not a version 3 GVAS file are refused.",
 ["inputs"],"any data up to the stated sizes, both types, any header values, any cut",
 "Tests hold fixed files; false headers and cuts are not tried systematically.",
 [S,G],[("compress_gvas_to_sav, decompress_sav_to_gvas","palsav.py"),("header checks","GvasHeader.read in gvas.py")],["result or error of unpacking"])
p("C14","The converter never destroys files that it was not told to replace",
 "The converter replaces an existing output only with --force or after the answer y; with n or no answer, and when the input is missing, unreadable, damaged or cannot be parsed, all files stay as they were and the exit status is non-zero. It never changes its input (unless that is the confirmed output) or any other file.",
 ["inputs","histories","configurations","fault_sequences"],"any file names and answers within the bounds, every combination of options, inputs good, damaged, missing or a directory, output existing or not",
 "The tests run the command on one file with nothing in the way; prompts, refusals and failures are not run.",
 [C,RT],[("overwrite prompt","confirm_prompt in commands/convert.py"),("order of parsing and opening the output","convert_sav_to_json, convert_json_to_sav")],["files before and after the command, its exit status and prompts"])
p("C15","Direction, output path, options and save type are as documented",
 "The extension or --to-json/--from-json decides the direction, the output is --output or the documented default, the JSON holds exactly the save (minified or not), and the save holds exactly the JSON. World saves are packed twice and all others once, as the game does; SAV to JSON to SAV through the commands keeps the contents.",
 ["inputs","configurations"],"any file names within the bounds, every combination of the options, any class name, saves of every kind",
 "Tests cover a few fixed names and option sets.",
 [C,S,G,J],[("direction and default path","main in commands/convert.py"),("save type choice","convert_json_to_sav")],["files written by the command"])
p("C16","Any choice of --custom-properties keeps the save intact",
 "Whichever of the known properties a user chooses to decode (none, some, all), exactly those are decoded, and converting back gives the same bytes.",
 ["inputs","configurations"],"every record type with its own decoder chosen, left out, or chosen alone, with any content within the bounds",
 "Tests always decode everything, or one record with its own decoder.",
 [A,P,C],[("dispatch to decoders by path, generic reading otherwise","FArchiveReader.property in archive.py"),("selection","convert_sav_to_json")],["JSON and bytes for each selection"])
p("C17","Conversions are repeatable and do not influence each other",
 "Reading, showing and writing the same save twice gives the same result twice, and a conversion gives the same result whatever other saves were converted, or failed to convert, before it or in between in the same process, and whatever a program did to the contents it got from them.",
 ["histories","inputs"],"pairs of saves of any record types and contents, in the listed orders (repeated writes, interleaved, after a failure, after a conversion in null mode)",
 "Each test converts once; state kept between conversions (shared defaults, hints, caches, consumed dictionaries) does not show.",
 [A,G,P]+ALLR,[("per-call dictionaries","archive.py and rawdata encoders, which edit the JSON they are given"),("module level tables","paltypes.py")],["results of repeated conversions"])
p("C18","The resave check reports success exactly when nothing was lost",
 "The resave test command exits with success if and only if the save that it wrote back has the same contents and packing as the input, which is the case for every well-formed save that is packed as its class requires, whatever files an earlier run left behind; it refuses wrong usage and never changes the input.",
 ["inputs","configurations"],"saves of any content within the bounds, with bytes that the tool does not keep, either packing, results of an earlier run present or not",
 "It is the tool that users trust to tell whether a conversion is safe, and nothing tests it on a file that does not survive.",
 [RT,C,S],[("comparison of contents and type","commands/resave_test.py")],["exit status against the two files"])
open('properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in props))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in props: jsonschema.validate(x,sch); assert len(x["title"])<=80
print(len(props))
