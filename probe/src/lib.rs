//! Entry points of the analysis.  Every function only names public API of the
//! analysed crate; the compiler resolves generics and trait methods for us.
//! Nothing in here is ever executed.
#![allow(clippy::all)]
use kicad_parse_gen::checkfix::{self, CheckFix, CheckFixData, Config};
use kicad_parse_gen::footprint::{self, Flip, Rotate};
use kicad_parse_gen::fp_lib_table as flt;
use kicad_parse_gen::layout;
use kicad_parse_gen::project;
use kicad_parse_gen::schematic;
use kicad_parse_gen::symbol_lib;
use kicad_parse_gen::*;
use std::path::{Path, PathBuf};

// ---- writers and readers -------------------------------------------------
pub fn fp_write(m: &footprint::Module) -> Result<String, KicadError> { footprint::module_to_string(m, 0) }
pub fn fp_read(s: &str) -> Result<footprint::Module, KicadError> { footprint::parse(s) }
pub fn lay_write(m: &layout::Layout) -> Result<String, KicadError> { layout::layout_to_string(m, 0) }
pub fn lay_read(s: &str) -> Result<layout::Layout, KicadError> { layout::parse(s) }
pub fn flt_write(m: &flt::FpLibTable) -> Result<String, KicadError> { flt::to_string(m, 0) }
pub fn flt_read(s: &str) -> Result<flt::FpLibTable, SexpError> { flt::parse(s) }
pub fn flt_expand(l: &flt::Lib) -> Result<String, KicadError> { l.get_expanded_uri() }
pub fn sch_write(m: &schematic::Schematic) -> String { format!("{}", m) }
pub fn sch_read(s: &str) -> Result<schematic::Schematic, KicadError> { schematic::parse_str(s) }
pub fn sch_parse(f: Option<PathBuf>, s: &str) -> Result<schematic::Schematic, KicadError> { schematic::parse(f, s) }
pub fn sym_write(m: &symbol_lib::SymbolLib) -> String { format!("{}", m) }
pub fn sym_read(s: &str) -> Result<symbol_lib::SymbolLib, KicadError> { symbol_lib::parse_str(s) }
pub fn prj_read(s: &str) -> Result<project::Project, KicadError> { project::parse_str(s) }

// ---- files ---------------------------------------------------------------
pub fn f_read_any(p: &Path, e: Expected) -> Result<KicadFile, KicadError> { read_kicad_file(p, e) }
pub fn f_read_module(p: &Path) -> Result<footprint::Module, KicadError> { read_module(p) }
pub fn f_read_schematic(p: &Path) -> Result<schematic::Schematic, KicadError> { read_schematic(p) }
pub fn f_read_layout(p: &Path) -> Result<layout::Layout, KicadError> { read_layout(p) }
pub fn f_read_symbol_lib(p: &Path) -> Result<symbol_lib::SymbolLib, KicadError> { read_symbol_lib(p) }
pub fn f_read_project(p: &Path) -> Result<project::Project, KicadError> { read_project(p) }
pub fn f_read_fp_lib_table(p: &Path) -> Result<flt::FpLibTable, KicadError> { read_fp_lib_table(p) }
pub fn f_write_layout(l: &layout::Layout, p: &Path) -> Result<(), KicadError> { write_layout(l, p) }
pub fn f_write_module(l: &footprint::Module, p: &Path) -> Result<(), KicadError> { write_module(l, p) }
pub fn f_read_file(p: &Path) -> Result<String, std::io::Error> { read_file(p) }
pub fn f_write_file(p: &Path, d: &str) -> Result<(), KicadError> { write_file(p, d) }
pub fn f_sch_parse_file(p: &Path) -> Result<schematic::Schematic, KicadError> { schematic::parse_file(p) }
pub fn f_sym_parse_file(p: &PathBuf) -> Result<symbol_lib::SymbolLib, KicadError> { symbol_lib::parse_file(p) }
pub fn f_filename_for_sheet(a: &schematic::Schematic, b: &schematic::Sheet) -> Result<PathBuf, KicadError> { schematic::filename_for_sheet(a, b) }
pub fn f_parse_file_for_sheet(a: &schematic::Schematic, b: &schematic::Sheet) -> Result<schematic::Schematic, KicadError> { schematic::parse_file_for_sheet(a, b) }
pub fn kf_display(k: &KicadFile) -> String { format!("{}", k) }
pub fn err_display(k: &KicadError) -> String { format!("{}", k) }

// ---- schematic -----------------------------------------------------------
pub fn sch_modify_component(s: &mut schematic::Schematic, r: &str, f: fn(&mut schematic::Component)) { s.modify_component(r, f) }
pub fn sch_modify_components(s: &mut schematic::Schematic, f: fn(&mut schematic::Component)) { s.modify_components(f) }
pub fn sch_collect_components(s: &schematic::Schematic, v: &mut Vec<schematic::Component>) { s.collect_components(v) }
pub fn sch_components(s: &schematic::Schematic) -> Vec<schematic::Component> { s.components() }
pub fn sch_all_components(s: &schematic::Schematic) -> Result<Vec<schematic::Component>, KicadError> { s.all_components() }
pub fn sch_component_by_reference(s: &schematic::Schematic, r: &str) -> Result<schematic::Component, KicadError> { s.component_by_reference(r) }
pub fn sch_increment_sheet_count(s: &mut schematic::Schematic) { s.increment_sheet_count() }
pub fn sch_bbox(s: &schematic::Schematic) -> Bound { s.bounding_box() }
pub fn sch_el_bbox(s: &schematic::Element) -> Bound { s.bounding_box() }
pub fn sch_comp_bbox(s: &schematic::Component) -> Bound { s.bounding_box() }
pub fn sch_sheet_bbox(s: &schematic::Sheet) -> Bound { s.bounding_box() }
pub fn comp_get_field_value(c: &schematic::Component, n: &str) -> Option<String> { c.get_field_value(n) }
pub fn comp_get_field(c: &schematic::Component, n: &str) -> Option<schematic::ComponentField> { c.get_field(n) }
pub fn comp_avail(c: &schematic::Component) -> i64 { c.get_available_field_num() }
pub fn comp_fields_hash(c: &schematic::Component) -> std::collections::HashMap<String, String> { c.fields_hash() }
pub fn comp_update_reference(c: &mut schematic::Component, r: String) { c.update_reference(r) }
pub fn comp_update_name(c: &mut schematic::Component, r: String) { c.update_name(r) }
pub fn comp_update_field(c: &mut schematic::Component, n: &str, v: &str) { c.update_field(n, v) }
pub fn comp_add_or_update(c: &mut schematic::Component, t: &schematic::ComponentField, n: &str, v: &str) -> schematic::FieldUpdate { c.add_or_update_field(t, n, v) }
pub fn comp_add_new(c: &mut schematic::Component, t: &schematic::ComponentField, n: &str, v: &str) { c.add_new_field(t, n, v) }
pub fn comp_field_new_from(i: i64, n: String, v: String, x: f64, y: f64) -> schematic::ComponentField { schematic::ComponentField::new_from(i, n, v, x, y) }
pub fn fieldupdate_bool(f: schematic::FieldUpdate) -> bool { f.into() }
pub fn sch_orientation_new(c: char) -> Result<schematic::Orientation, KicadError> { schematic::Orientation::new(c) }
pub fn sch_justify_new(c: char) -> Result<schematic::Justify, KicadError> { schematic::Justify::new(c) }

// ---- symbol library ------------------------------------------------------
pub fn sym_find(s: &symbol_lib::SymbolLib, f: fn(&symbol_lib::Symbol) -> bool) -> Option<&symbol_lib::Symbol> { s.find(f) }
pub fn sym_new(n: String, r: String) -> symbol_lib::Symbol { symbol_lib::Symbol::new(n, r) }
pub fn sym_set_name(s: &mut symbol_lib::Symbol, n: &str) { s.set_name(n) }
pub fn sym_pins(s: &symbol_lib::Symbol) -> Vec<&symbol_lib::Pin> { s.pins() }
pub fn sym_is_power(s: &symbol_lib::Symbol) -> bool { s.is_power() }
pub fn sym_is_graphics(s: &symbol_lib::Symbol) -> bool { s.is_graphics() }
pub fn sym_is_basic(s: &symbol_lib::Symbol) -> bool { s.is_basic() }
pub fn sym_check(s: &symbol_lib::Symbol, c: &Config) -> Vec<CheckFixData> { s.check(c) }
pub fn sym_pin_check(s: &symbol_lib::Pin, c: &Config) -> Vec<CheckFixData> { s.check(c) }
pub fn sym_rect_check(s: &symbol_lib::Rectangle, c: &Config) -> Vec<CheckFixData> { s.check(c) }
pub fn sym_draw_check(s: &symbol_lib::Draw, c: &Config) -> Vec<CheckFixData> { s.check(c) }

// ---- footprint -----------------------------------------------------------
pub fn fp_flip(m: &mut footprint::Module) { m.flip() }
pub fn fp_el_flip(m: &mut footprint::Element) { m.flip() }
pub fn fp_rotate(m: &mut footprint::Module, a: f64) { m.rotate(a) }
pub fn fp_adjust(m: &mut footprint::Module, x: f64, y: f64) { m.adjust(x, y) }
pub fn fp_bbox(m: &footprint::Module) -> Bound { m.bounding_box() }
pub fn fp_el_bbox(m: &footprint::Element) -> Bound { m.bounding_box() }
pub fn fp_check(m: &footprint::Module, c: &Config) -> Vec<CheckFixData> { m.check(c) }
pub fn fp_fix(m: &mut footprint::Module, c: &Config) { m.fix(c) }
pub fn fp_rename_net(m: &mut footprint::Module, a: &str, b: &str) { m.rename_net(a, b) }
pub fn fp_new(n: String) -> footprint::Module { footprint::Module::new(n) }
pub fn fp_append(m: &mut footprint::Module, e: footprint::Element) { m.append(e) }
pub fn fp_is_ref(m: &footprint::Module, r: &str) -> bool { m.is_reference_with_name(r) }
pub fn fp_get_reference(m: &footprint::Module) -> Option<&String> { m.get_reference() }
pub fn fp_get_reference_text(m: &footprint::Module) -> Option<&footprint::FpText> { m.get_reference_text() }
pub fn fp_get_reference2_text(m: &footprint::Module) -> Option<&footprint::FpText> { m.get_reference2_text() }
pub fn fp_get_value_text(m: &footprint::Module) -> Option<&footprint::FpText> { m.get_value_text() }
pub fn fp_get_reference_text_mut(m: &mut footprint::Module) -> Option<&mut footprint::FpText> { m.get_reference_text_mut() }
pub fn fp_get_reference2_text_mut(m: &mut footprint::Module) -> Option<&mut footprint::FpText> { m.get_reference2_text_mut() }
pub fn fp_get_value_text_mut(m: &mut footprint::Module) -> Option<&mut footprint::FpText> { m.get_value_text_mut() }
pub fn fp_has_smd_attr(m: &footprint::Module) -> bool { m.has_smd_attr() }
pub fn fp_get_tstamp(m: &footprint::Module) -> Option<i64> { m.get_tstamp() }
pub fn fp_get_tedit(m: &footprint::Module) -> Option<i64> { m.get_tedit() }
pub fn fp_set_reference(m: &mut footprint::Module, a: &str, b: &str) { m.set_reference(a, b) }
pub fn fp_at(m: &footprint::Module) -> (f64, f64) { m.at() }
pub fn fp_get_rotation(m: &footprint::Module) -> f64 { m.get_rotation() }
pub fn fp_adjust_at(m: &mut footprint::Module, x: f64, y: f64) { m.adjust_at(x, y) }
pub fn fp_is_front(m: &footprint::Module) -> bool { m.is_front() }
pub fn fp_pads(m: &footprint::Module) -> Vec<&footprint::Pad> { m.pads() }
pub fn fp_lines(m: &footprint::Module) -> Vec<&footprint::FpLine> { m.lines() }
pub fn fp_el_eq(a: &footprint::Element, b: &footprint::Element) -> bool { a == b }
pub fn fp_layer_eq(a: &footprint::Layer, b: &footprint::Layer) -> bool { a == b }
pub fn fp_net_eq(a: &footprint::Net, b: &footprint::Net) -> bool { a == b }
pub fn fp_pad_eq(a: &footprint::Pad, b: &footprint::Pad) -> bool { a == b }
pub fn fp_text_eq(a: &footprint::FpText, b: &footprint::FpText) -> bool { a == b }
pub fn fp_pad_rename_net(p: &mut footprint::Pad, a: &str, b: &str) { p.rename_net(a, b) }
pub fn fp_pad_set_net(p: &mut footprint::Pad, n: footprint::Net) { p.set_net(n) }
pub fn fp_pad_set_drill(p: &mut footprint::Pad, n: footprint::Drill) { p.set_drill(n) }
pub fn fp_layer_from_string(s: &str) -> Result<footprint::Layer, SexpError> { footprint::Layer::from_string(s) }
pub fn fp_layer_display(l: &footprint::Layer) -> String { format!("{}", l) }
pub fn fp_padtype_from_string(s: &str) -> Result<footprint::PadType, SexpError> { footprint::PadType::from_string(s) }
pub fn fp_padshape_from_string(s: &str) -> Result<footprint::PadShape, SexpError> { footprint::PadShape::from_string(s) }
pub fn fp_layers_append(l: &mut footprint::Layers, a: footprint::Layer) { l.append(a) }

// ---- layout --------------------------------------------------------------
pub fn lay_adjust(l: &mut layout::Layout, x: f64, y: f64) { l.adjust(x, y) }
pub fn lay_el_adjust(l: &mut layout::Element, x: f64, y: f64) { l.adjust(x, y) }
pub fn lay_bbox(l: &layout::Layout) -> Bound { l.bounding_box() }
pub fn lay_el_bbox(l: &layout::Element) -> Bound { l.bounding_box() }
pub fn lay_nets(l: &layout::Layout) -> Vec<&layout::Net> { l.nets() }
pub fn lay_netclasses(l: &layout::Layout) -> Vec<&layout::NetClass> { l.netclasses() }
pub fn lay_get_module<'a>(l: &'a layout::Layout, r: &str) -> Option<&'a footprint::Module> { l.get_module(r) }
pub fn lay_get_modules(l: &layout::Layout) -> Vec<&footprint::Module> { l.get_modules() }
pub fn lay_modify_module(l: &mut layout::Layout, r: &str, f: fn(&mut footprint::Module)) -> Result<(), KicadError> { l.modify_module(r, f) }
pub fn lay_change_net_name(l: &mut layout::Layout, a: &str, b: &str) { l.change_net_name(a, b) }
pub fn lay_update_net_names(l: &mut layout::Layout, f: fn(&mut layout::NetName) -> Result<(), KicadError>) -> Result<(), KicadError> { l.update_net_names(f) }
pub fn lay_add_net(l: &mut layout::Layout, n: i64, name: &'static str) { l.add_net(n, name) }
pub fn lay_add_netclass(l: &mut layout::Layout, a: &'static str, b: &'static str, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: Option<f64>, j: Option<f64>, k: Vec<String>) { l.add_netclass(a, b, c, d, e, f, g, h, i, j, k) }
pub fn lay_nc_equal_no_net(a: &layout::NetClass, b: &layout::NetClass) -> bool { a.equal_no_net(b) }
pub fn lay_nc_has_net(a: &layout::NetClass, n: &'static str) -> bool { a.has_net(n) }
pub fn lay_nc_eq(a: &layout::NetClass, b: &layout::NetClass) -> bool { a == b }
pub fn lay_net_eq(a: &layout::Net, b: &layout::Net) -> bool { a == b }
pub fn lay_setup_get<'a>(a: &'a layout::Setup, n: &str) -> Option<&'a String> { a.get(n) }
pub fn lay_setup_update(a: &mut layout::Setup, n: &'static str, v: String) { a.update_element(n, v) }
pub fn netname_from_str(s: &str) -> layout::NetName { layout::NetName::from(s) }
pub fn netname_from_string(s: String) -> layout::NetName { layout::NetName::from(s) }
pub fn netname_rename(n: &mut layout::NetName, a: &str, b: &str) { n.rename(a, b) }
pub fn netname_replace_block(n: &mut layout::NetName, a: &str, b: &str) { n.replace_block(a, b) }
pub fn netname_is_unnamed(n: &layout::NetName) -> Option<(String, String)> { n.is_unnamed_net() }
pub fn netname_set_unnamed(n: &mut layout::NetName, a: &str) -> Result<(), KicadError> { n.set_unnamed_net(a) }
pub fn netname_display(n: &layout::NetName) -> String { format!("{}", n) }

// ---- bounds, misc --------------------------------------------------------
pub fn bound_default() -> Bound { Bound::default() }
pub fn bound_new(a: f64, b: f64, c: f64, d: f64) -> Bound { Bound::new(a, b, c, d) }
pub fn bound_update(a: &mut Bound, b: &Bound) { a.update(b) }
pub fn bound_swap(a: &mut Bound) { a.swap_if_needed() }
pub fn bound_width(a: &Bound) -> f64 { a.width() }
pub fn bound_height(a: &Bound) -> f64 { a.height() }
pub fn ref_ord(r: &str) -> (char, i64) { reference_ord(r) }
pub fn cf_config() -> Config { Config::klc() }
pub fn cf_allowed(s: &str) -> Vec<CheckFixData> { checkfix::allowed_1_7_items(s) }
pub fn cf_is_allowed(s: &str) -> bool { checkfix::is_allowed_1_7(s) }
pub fn cf_flatter(c: CheckFixData) -> CheckFixData { c.flatter() }
