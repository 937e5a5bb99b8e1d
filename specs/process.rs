//@include prelude.rs
//@include wrap.rs
// Commands, pipelines and the streams over a reader or a process: what is run, with which arguments,
// connected how; and what the sources report about themselves.
verus! {
//@known new arg args insert_arg into_command spawn pipe stdout stdin stderr kill_on_drop try_clone as_file stdio_to_tmp_file content_length supports_seek seek_range reconnect wait kill success check_stderr_files close_stderr_files close
//@subst "Box::new" "vx_same"
//@subst "Pin::new" "vx_same"
//@subst "tokio::process::Command" "OsCommand"
//@subst "std::process::Command" "OsCommand"
//@subst "StdCommand" "OsCommand"
//@subst "tokio::process::ChildStdout" "ChildStdout"
//@subst "tokio::process::Child" "Child"
//@subst "tempfile::NamedTempFile" "NamedTempFile"
//@method into vx_into
//@method clone vx_clone
//@method as_ref vx_as_ref
//@method expect vx_expect
//@method insert insert
// ---------------------------------------------------------------- strings and conversions
pub struct OsString { pub s: Ghost<Seq<char>> }
impl View for OsString { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
/// conversions: the text, or the command, stays what it is
pub trait VxInto<T: View>: Sized { spec fn to(&self) -> T::V; fn vx_into(self) -> (r: T) ensures r@ == self.to(); }
impl<'a> VxInto<OsString> for &'a str {
    open spec fn to(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: OsString) { unimplemented!() }
}
impl<'a> VxInto<OsString> for &'a String {
    open spec fn to(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: OsString) { unimplemented!() }
}
impl VxInto<OsString> for String {
    open spec fn to(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: OsString) { unimplemented!() }
}
impl<'a> VxInto<OsString> for &'a OsString {
    open spec fn to(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: OsString) { unimplemented!() }
}
impl VxInto<OsString> for OsString {
    open spec fn to(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: OsString) { unimplemented!() }
}
impl<'a> VxInto<String> for &'a str {
    open spec fn to(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { unimplemented!() }
}
impl VxInto<String> for String {
    open spec fn to(&self) -> Seq<char> { self@ }
    fn vx_into(self) -> (r: String) { self }
}
impl VxInto<Option<u64>> for Option<u64> {
    open spec fn to(&self) -> Option<u64> { *self }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Option<u64>) { self }
}
pub trait VxAsRef { spec fn text(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.text(); }
impl VxAsRef for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn vx_as_ref(&self) -> (r: &str) { self.as_str() }
}
pub trait VxExpect<T>: Sized { spec fn fine(&self) -> bool; spec fn val(&self) -> T; fn vx_expect(self, m: &str) -> (r: T) requires self.fine() ensures r == self.val(); }
impl<T> VxExpect<T> for Option<T> {
    open spec fn fine(&self) -> bool { self is Some }
    open spec fn val(&self) -> T { self->Some_0 }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Some(r) => r, None => vx_panic() } }
}
pub trait VxClone: Sized { fn vx_clone(&self) -> Self; }
impl VxClone for Vec<OsString> {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Vec<OsString>) ensures texts_of(r@) == texts_of(self@) { unimplemented!() }
}
// ---------------------------------------------------------------- iteration
pub trait VxTake<E>: Sized { spec fn elem(&self, i: int) -> E; spec fn n(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.n(); fn vx_take(&mut self, i: usize) -> (r: E) requires i < old(self).n() ensures r == old(self).elem(i as int), *final(self) == *old(self); }
impl<T> VxTake<T> for Vec<T> {
    open spec fn elem(&self, i: int) -> T { self@[i] }
    open spec fn n(&self) -> nat { self@.len() }
    fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_take(&mut self, i: usize) -> (r: T) { unimplemented!() }
}
impl<T, const N: usize> VxTake<T> for [T; N] {
    open spec fn elem(&self, i: int) -> T { self@[i] }
    open spec fn n(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { N }
    #[verifier::external_body]
    fn vx_take(&mut self, i: usize) -> (r: T) { unimplemented!() }
}
pub trait VxGetMut<T> { spec fn items(&self) -> Seq<T>; fn vx_get_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).items().len() ensures *r == old(self).items()[i as int], final(self).items() == old(self).items().update(i as int, *final(r)); }
impl<T> VxGetMut<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_get_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
}
pub open spec fn texts<S: VxInto<OsString>, I: VxTake<S>>(a: I, n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| a.elem(i).to()) }
pub open spec fn texts_of(a: Seq<OsString>) -> Seq<Seq<char>> { a.map_values(|x: OsString| x@) }
pub broadcast proof fn texts_push(s: Seq<OsString>, x: OsString)
    ensures #[trigger] texts_of(s.push(x)) == texts_of(s).push(x@)
{ assert(texts_of(s.push(x)) =~= texts_of(s).push(x@)); }
// ---------------------------------------------------------------- the operating system's side
/// a running process: what it was started as and where its standard input comes from
pub enum Proc { Inherit, Of { program: Seq<char>, args: Seq<Seq<char>>, stdin: Box<Proc> } }
pub enum StdioV { Piped, File(int), Other(int) }
pub struct Stdio { pub v: Ghost<StdioV> }
impl View for Stdio { type V = StdioV; open spec fn view(&self) -> StdioV { self.v@ } }
impl VxInto<Stdio> for Stdio {
    open spec fn to(&self) -> StdioV { self@ }
    fn vx_into(self) -> (r: Stdio) { self }
}
impl Stdio {
    pub fn piped() -> (r: Stdio) ensures r@ == StdioV::Piped { Stdio { v: Ghost(StdioV::Piped) } }
    pub fn from(f: File) -> (r: Stdio) ensures r@ == StdioV::File(f.id@) { Stdio { v: Ghost(StdioV::File(f.id@)) } }
}
pub struct File { pub id: Ghost<int> }
impl File {
    #[verifier::external_body]
    pub fn try_clone(&self) -> (r: io::Result<File>) ensures r is Ok ==> r->Ok_0 == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, buf: &mut String) -> (r: io::Result<usize>) { unimplemented!() }
}
pub struct NamedTempFile { pub id: Ghost<int>, pub f: File }
impl NamedTempFile {
    #[verifier::external_body]
    pub fn new() -> (r: io::Result<NamedTempFile>) { unimplemented!() }
    pub fn as_file(&self) -> (r: &File) ensures *r == self.f { &self.f }
    #[verifier::external_body]
    pub fn close(self) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    pub fn reopen(&self) -> (r: io::Result<File>) { unimplemented!() }
}
pub struct ChildStdout { pub of: Ghost<Proc> }
pub struct ExitStatus { pub ok: bool }
impl ExitStatus { pub fn success(&self) -> bool { self.ok } }
/// `over`: it was waited for, or killed and waited for
pub struct Child { pub stdout: Option<ChildStdout>, pub p: Ghost<Proc>, pub over: Ghost<bool> }
impl Child {
    pub open spec fn wf(&self) -> bool { self.stdout is Some && self.stdout->Some_0.of@ == self.p@ }
    #[verifier::external_body]
    pub fn wait(&mut self) -> (r: io::Result<ExitStatus>) ensures final(self).p == old(self).p, r is Ok ==> final(self).over@ { unimplemented!() }
    #[verifier::external_body]
    pub fn kill(&mut self) -> (r: io::Result<()>) ensures final(self).p == old(self).p, r is Ok ==> final(self).over@ { unimplemented!() }
}
pub trait VxArgs { spec fn vx_texts(&self) -> Seq<Seq<char>>; }
impl VxArgs for Vec<OsString> { open spec fn vx_texts(&self) -> Seq<Seq<char>> { texts_of(self@) } }
impl<'a> VxArgs for &'a Vec<OsString> { open spec fn vx_texts(&self) -> Seq<Seq<char>> { texts_of(self@) } }
/// the argument vector and handles a process is started with
pub struct OsCommand { pub program: Ghost<Seq<char>>, pub argv: Ghost<Seq<Seq<char>>>, pub inp: Ghost<Proc>, pub piped: Ghost<bool> }
impl OsCommand {
    #[verifier::external_body]
    pub fn new(program: OsString) -> (r: OsCommand)
        ensures r.program@ == program@, r.argv@ == Seq::<Seq<char>>::empty(), r.inp@ is Inherit, !r.piped@ { unimplemented!() }
    #[verifier::external_body]
    pub fn args<A: VxArgs>(&mut self, a: A) -> (r: &mut OsCommand)
        ensures r.program == old(self).program, r.argv@ == old(self).argv@ + a.vx_texts(), r.inp == old(self).inp, r.piped == old(self).piped, *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout(&mut self, s: Stdio) -> (r: &mut OsCommand)
        ensures r.program == old(self).program, r.argv == old(self).argv, r.inp == old(self).inp, r.piped@ == (s@ is Piped), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn stderr(&mut self, s: Stdio) -> (r: &mut OsCommand)
        ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn stdin(&mut self, s: ChildStdout) -> (r: &mut OsCommand)
        ensures r.program == old(self).program, r.argv == old(self).argv, r.inp == s.of, r.piped == old(self).piped, *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn kill_on_drop(&mut self, k: bool) -> (r: &mut OsCommand)
        ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    pub open spec fn run(&self) -> Proc { Proc::Of { program: self.program@, args: self.argv@, stdin: Box::new(self.inp@) } }
    #[verifier::external_body]
    pub fn spawn(&mut self) -> (r: io::Result<Child>)
        ensures *final(self) == *old(self), r is Ok ==> r->Ok_0.p@ == old(self).run() && (r->Ok_0.stdout is Some <==> old(self).piped@) && (old(self).piped@ ==> r->Ok_0.wf()) { unimplemented!() }
}
pub struct Infallible { }
pub struct Item { pub x: u8 }
pub struct Context { pub x: u8 }
/// waking has no effect on the data
pub struct Waker { pub x: u8 }
impl Waker { pub fn wake_by_ref(&self) { } pub fn wake(self) { } pub fn clone(&self) -> Waker { Waker { x: self.x } } }
impl Context { pub fn waker(&self) -> Waker { Waker { x: 0 } } }
pub enum Poll<T> { Ready(T), Pending }
/// tokio-util's stream over a reader: the reader's bytes, in order
pub struct ReaderStream<T> { pub src: T }
impl<T> ReaderStream<T> {
    pub fn new(stream: T) -> (r: ReaderStream<T>) ensures r.src == stream { ReaderStream { src: stream } }
    pub uninterp spec fn polled(pre: ReaderStream<T>, post: ReaderStream<T>, r: Poll<Option<Item>>) -> bool;
    #[verifier::external_body]
    pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Item>>)
        ensures ReaderStream::polled(*old(self), *final(self), r) { unimplemented!() }
}
// ---------------------------------------------------------------- the module's own types
//@struct file=process/mod.rs name=Command
//@struct file=process/mod.rs name=SpawnedCommand
//@struct file=process/mod.rs name=ProcessStreamParams
//@struct file=process/mod.rs name=ProcessStream
//@struct file=process/command_builder.rs name=CommandBuilder
//@struct file=process/ffmpeg.rs name=FfmpegConvertAudioCommand
//@struct file=process/yt_dlp.rs name=YtDlpCommand
//@struct file=async_read.rs name=AsyncReadStream generics="<T>"
//@struct file=async_read.rs name=AsyncReadStreamParams generics="<T>"
//@enum file=source/mod.rs name=StreamOutcome
pub fn vx_eq(a: &StreamOutcome, b: &StreamOutcome) -> (r: bool) ensures r == (*a == *b) { match (a, b) { (StreamOutcome::Completed, StreamOutcome::Completed) => true, (StreamOutcome::CancelledByUser, StreamOutcome::CancelledByUser) => true, _ => false } }
#[verifier::opaque]
pub open spec fn noted(x: Seq<char>) -> Seq<char> { x }
/// mentions the first arguments, for the solver to look at
pub open spec fn looked(a: Seq<Seq<char>>) -> bool { a[0] == noted(a[0]) && a[1] == noted(a[1]) && a[2] == noted(a[2]) && a[3] == noted(a[3]) && a[4] == noted(a[4]) && a[5] == noted(a[5]) && a[6] == noted(a[6]) && a[7] == noted(a[7]) && a[8] == noted(a[8]) && a[9] == noted(a[9]) && a[10] == noted(a[10]) && a[11] == noted(a[11]) && a[12] == noted(a[12]) && a[13] == noted(a[13]) && a[14] == noted(a[14]) && a[15] == noted(a[15]) }
pub proof fn look(a: Seq<Seq<char>>) ensures looked(a) { reveal(noted); }
pub open spec fn one_of(a: Seq<Seq<char>>, x: Seq<char>) -> bool { (0 < a.len() && a[0] == x) || (1 < a.len() && a[1] == x) || (2 < a.len() && a[2] == x) || (3 < a.len() && a[3] == x) || (4 < a.len() && a[4] == x) || (5 < a.len() && a[5] == x) || (6 < a.len() && a[6] == x) || (7 < a.len() && a[7] == x) || (8 < a.len() && a[8] == x) || (9 < a.len() && a[9] == x) || (10 < a.len() && a[10] == x) || (11 < a.len() && a[11] == x) || (12 < a.len() && a[12] == x) || (13 < a.len() && a[13] == x) || (14 < a.len() && a[14] == x) || (15 < a.len() && a[15] == x) }
pub proof fn short_contains(a: Seq<Seq<char>>, x: Seq<char>) requires a.len() <= 16, a.contains(x) ensures one_of(a, x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a[i] == x); }
pub open spec fn has_pair(a: Seq<Seq<char>>, x: Seq<char>, y: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() - 1 && #[trigger] a[i] == x && a[i + 1] == y }
pub struct CmdV { pub program: Seq<char>, pub args: Seq<Seq<char>> }
impl View for Command { type V = CmdV; open spec fn view(&self) -> CmdV { CmdV { program: self.program@, args: texts_of(self.args@) } } }
pub open spec fn is_cmd(c: CmdV, program: Seq<char>, args: Seq<Seq<char>>) -> bool { c.program == program && c.args =~= args }
/// the processes of a pipeline: the last one first, each reading what its predecessor writes
pub open spec fn pipeline(c: Seq<CmdV>) -> Proc decreases c.len() {
    if c.len() == 0 { Proc::Inherit } else { Proc::Of { program: c.last().program, args: c.last().args, stdin: Box::new(pipeline(c.drop_last())) } }
}
pub open spec fn cmds(c: Seq<Command>) -> Seq<CmdV> { c.map_values(|x: Command| x@) }
pub open spec fn out(o: Option<ChildStdout>) -> Proc { match o { Some(c) => c.of@, None => Proc::Inherit } }
pub trait SpawnCommand: Sized {
    spec fn ready(&self) -> bool;
    spec fn steps(&self) -> Seq<CmdV>;
    fn spawn(self) -> (r: io::Result<SpawnedCommand>)
        requires self.ready(),
        ensures r is Ok ==> r->Ok_0.child_handle.wf() && r->Ok_0.child_handle.p@ == pipeline(self.steps()); // #C14 the commands, in order, each connected to its predecessor
}
// ---------------------------------------------------------------- commands
impl Command {
//@fn file=process/mod.rs impl=Command fn=new id=Command::new props=C14
//@sig fn new<S: VxInto<OsString>>(program: S) -> (r: Command)
    ensures is_cmd(r@, program.to(), Seq::empty()), // #C14 the program, no arguments
//@end
//@fn file=process/mod.rs impl=Command fn=args id=Command::args props=C14
//@sig fn args<S: VxInto<OsString>, I: VxTake<S>>(self, args: I) -> (r: Command)
    ensures is_cmd(r@, self@.program, self@.args + texts::<S, I>(args, args.n() as int)), // #C14 all of them, in order
//@loop 0
        invariant
            vx_s0 == args && vx_i0 <= args.n(),
            is_cmd(vx_self@, self@.program, self@.args + texts::<S, I>(args, vx_i0 as int)),
        decreases args.n() - vx_i0
//@entry
    broadcast use texts_push;
//@end
//@fn file=process/mod.rs impl=Command fn=arg id=Command::arg props=C14
//@sig fn arg<S: VxInto<OsString>>(self, arg: S) -> (r: Command)
    ensures is_cmd(r@, self@.program, self@.args.push(arg.to())), // #C14 added behind the others
//@end
//@fn file=process/mod.rs impl=Command fn=insert_arg id=Command::insert_arg props=C14
//@sig fn insert_arg<S: VxInto<OsString>>(self, index: usize, arg: S) -> (r: Command)
    requires index <= self@.args.len(),
    ensures is_cmd(r@, self@.program, self@.args.insert(index as int, arg.to())), // #C14 lands at the index
//@end
//@fn file=process/mod.rs impl=Command fn=stderr_handle id=Command::stderr_handle props=C14
//@sig fn stderr_handle<S: VxInto<Stdio>>(self, stderr_handle: S) -> (r: Command)
    ensures r@ == self@ && r.stderr_handle is Some && r.stderr_handle->Some_0@ == stderr_handle.to(), // #C14
//@end
}
impl VxInto<Command> for Command {
    open spec fn to(&self) -> CmdV { self@ }
    fn vx_into(self) -> (r: Command) { self }
}
impl SpawnCommand for Command {
    open spec fn ready(&self) -> bool { true }
    open spec fn steps(&self) -> Seq<CmdV> { seq![self@] }
//@fn file=process/mod.rs impl="SpawnCommand for Command" fn=spawn id=Command::spawn props=C14 nopub=1
//@sig fn spawn(self) -> (r: io::Result<SpawnedCommand>)
//@entry
proof { assert(seq![self@].drop_last() =~= Seq::<CmdV>::empty()); reveal_with_fuel(pipeline, 2); }
//@end
}
//@fn file=process/mod.rs fn=stdio_to_tmp_file props=C14
//@sig fn stdio_to_tmp_file() -> (r: io::Result<(Stdio, NamedTempFile)>)
    ensures r is Ok ==> r->Ok_0.0@ == StdioV::File(r->Ok_0.1.f.id@), // #C14 the handle writes to that file
//@end
impl SpawnedCommand {
//@fn file=process/mod.rs impl=SpawnedCommand fn=new id=SpawnedCommand::new props=C14
//@sig fn new(command: Command, prev_out: Option<ChildStdout>, stderr_files: Vec<NamedTempFile>) -> (r: core::result::Result<SpawnedCommand, io::Error>)
    ensures r is Ok ==> r->Ok_0.child_handle.wf() && r->Ok_0.child_handle.p@ == (Proc::Of { program: command@.program, args: command@.args, stdin: Box::new(out(prev_out)) }), // #C14 that program with exactly those arguments, reading what the previous one writes
//@end
}
impl CommandBuilder {
    pub open spec fn wf(&self) -> bool { self.commands@.len() > 0 }
//@fn file=process/command_builder.rs impl=CommandBuilder fn=new id=CommandBuilder::new props=C14
//@sig fn new<C: VxInto<Command>>(command: C) -> (r: CommandBuilder)
    ensures r.wf() && cmds(r.commands@) =~= seq![command.to()], // #C14
//@end
//@fn file=process/command_builder.rs impl=CommandBuilder fn=pipe id=CommandBuilder::pipe props=C14
//@sig fn pipe<C: VxInto<Command>>(self, command: C) -> (r: CommandBuilder)
    requires self.wf(),
    ensures r.wf() && cmds(r.commands@) =~= cmds(self.commands@).push(command.to()), // #C14 behind the others
//@end
}
impl SpawnCommand for CommandBuilder {
    open spec fn ready(&self) -> bool { self.wf() }
    open spec fn steps(&self) -> Seq<CmdV> { cmds(self.commands@) }
//@fn file=process/command_builder.rs impl="SpawnCommand for CommandBuilder" fn=spawn id=CommandBuilder::spawn props=C14 nopub=1
//@sig fn spawn(self) -> (r: io::Result<SpawnedCommand>)
//@entry
proof {
    let c = cmds(self.commands@);
    assert(c.drop_last() =~= c.take(c.len() - 1) && c.take(0) =~= Seq::<CmdV>::empty());
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] c.take(k + 1).drop_last() =~= c.take(k) && c.take(k + 1).last() == c[k] by { }
}
//@loop 0
        invariant
            vx_s0@ == self.commands@.drop_last() && vx_i0 <= vx_s0@.len(),
            out(prev_stdout) == pipeline(cmds(self.commands@).take(vx_i0 as int)),
        decreases vx_s0@.len() - vx_i0
//@end
}
// ---------------------------------------------------------------- wrappers
impl FfmpegConvertAudioCommand {
    pub open spec fn wf(&self) -> bool { self.0@.args.len() > 0 && self.0@.args.last() == "-"@ }
//@fn file=process/ffmpeg.rs impl=FfmpegConvertAudioCommand fn=new id=FfmpegConvertAudioCommand::new props=C14
//@sig fn new<S: VxAsRef>(format: S) -> (r: FfmpegConvertAudioCommand)
    ensures r.wf() && r.0@.program == "ffmpeg"@, // #C14
        has_pair(r.0@.args, "-f"@, format.text()), // #C14 the requested format
//@lits
//@entry
proof { assert forall|a: Seq<Seq<char>>, x: Seq<char>, y: Seq<char>| #![trigger has_pair(a, x, y)] looked(a) by { look(a); } }
//@end
//@fn file=process/ffmpeg.rs impl=FfmpegConvertAudioCommand fn=ffmpeg_path id=FfmpegConvertAudioCommand::ffmpeg_path props=C14
//@sig fn ffmpeg_path<S: VxInto<OsString>>(self, path: S) -> (r: FfmpegConvertAudioCommand)
    requires self.wf(),
    ensures r.wf() && is_cmd(r.0@, path.to(), self.0@.args), // #C14
//@end
//@fn file=process/ffmpeg.rs impl=FfmpegConvertAudioCommand fn=arg id=FfmpegConvertAudioCommand::arg props=C14
//@sig fn arg<S: VxInto<OsString>>(self, arg: S) -> (r: FfmpegConvertAudioCommand)
    requires self.wf(),
    ensures r.wf() && is_cmd(r.0@, self.0@.program, self.0@.args.drop_last().push(arg.to()).push("-"@)), // #C14 behind the earlier ones, before the final -
//@end
//@fn file=process/ffmpeg.rs impl=FfmpegConvertAudioCommand fn=args id=FfmpegConvertAudioCommand::args props=C14
//@sig fn args<S: VxInto<OsString>, I: VxTake<S>>(self, args: I) -> (r: FfmpegConvertAudioCommand)
    requires self.wf(),
    ensures r.wf() && is_cmd(r.0@, self.0@.program, (self.0@.args.drop_last() + texts::<S, I>(args, args.n() as int)).push("-"@)), // #C14 in the order given
//@loop 0
        invariant
            vx_s0 == args && vx_i0 <= args.n() && self.wf() && vx_self.wf(),
            is_cmd(vx_self.0@, self.0@.program, (self.0@.args.drop_last() + texts::<S, I>(args, vx_i0 as int)).push("-"@)),
        decreases args.n() - vx_i0
//@end
//@fn file=process/ffmpeg.rs impl="From<FfmpegConvertAudioCommand> for Command" fn=from id=FfmpegConvertAudioCommand::into props=C14
//@sig fn into_cmd(value: FfmpegConvertAudioCommand) -> (r: Command)
    ensures r == value.0, // #C14
//@end
}
impl VxInto<Command> for FfmpegConvertAudioCommand {
    open spec fn to(&self) -> CmdV { self.0@ }
    fn vx_into(self) -> (r: Command) { FfmpegConvertAudioCommand::into_cmd(self) }
}
impl YtDlpCommand {
    pub open spec fn always(&self, c: CmdV) -> bool { c.program == self.cmd_name@ && c.args.contains(self.url@) && has_pair(c.args, "-o"@, "-"@) }
    /// a text that is one of the user's own
    pub open spec fn own(&self, x: Seq<char>) -> bool { self.url@ == x || (self.format is Some && self.format->Some_0@ == x) }
    pub open spec fn audio(&self, c: CmdV) -> bool { if self.extract_audio { c.args.contains("-x"@) } else { self.own("-x"@) || !c.args.contains("-x"@) } }
    pub open spec fn fmt(&self, c: CmdV) -> bool { match self.format { Some(f) => has_pair(c.args, "-f"@, f@), None => self.own("-f"@) || !c.args.contains("-f"@) } }
    pub open spec fn makes(&self, c: CmdV) -> bool { self.always(c) && self.audio(c) && self.fmt(c) }
//@fn file=process/yt_dlp.rs impl=YtDlpCommand fn=new id=YtDlpCommand::new props=C14
//@sig fn new<S: VxInto<String>>(url: S) -> (r: YtDlpCommand)
    ensures r.url@ == url.to() && r.cmd_name@ == "yt-dlp"@ && !r.extract_audio && r.format is None, // #C14
//@end
//@fn file=process/yt_dlp.rs impl=YtDlpCommand fn=into_command id=YtDlpCommand::into_command props=C14
//@sig fn into_command(self) -> (r: Command)
    ensures
        self.always(r@), // #C14 the program, the URL and the output to stdout
        self.audio(r@), // #C14 the audio flag exactly when requested
        self.fmt(r@), // #C14 the format flag exactly when requested, followed by the format
//@lits "-x" "-f" "-o" "-"
//@entry
proof {
    assert forall|c: CmdV| #![trigger self.always(c)] #![trigger self.audio(c)] #![trigger self.fmt(c)] looked(c.args) by { look(c.args); }
    assert forall|a: Seq<Seq<char>>, x: Seq<char>| #![trigger a.contains(x)] a.contains(x) && a.len() <= 16 implies one_of(a, x) by { short_contains(a, x); }
}
//@end
//@fn file=process/yt_dlp.rs impl="SpawnCommand for YtDlpCommand" fn=spawn id=YtDlpCommand::spawn props=C14
//@sig fn yt_spawn(self) -> (r: io::Result<SpawnedCommand>)
    ensures r is Ok ==> exists|c: CmdV| #[trigger] self.always(c) && self.audio(c) && self.fmt(c) && r->Ok_0.child_handle.wf() && r->Ok_0.child_handle.p@ == pipeline(seq![c]), // #C14 exactly that command is run
//@end
//@fn file=process/yt_dlp.rs impl=YtDlpCommand fn=extract_audio id=YtDlpCommand::extract_audio props=C14
//@sig fn extract_audio(self, extract_audio: bool) -> (r: YtDlpCommand)
    ensures r == (YtDlpCommand { extract_audio, ..self }), // #C14
//@end
//@fn file=process/yt_dlp.rs impl=YtDlpCommand fn=format id=YtDlpCommand::format props=C14
//@sig fn format<S: VxInto<String>>(self, format: S) -> (r: YtDlpCommand)
    ensures r == (YtDlpCommand { format: r.format, ..self }) && r.format is Some && r.format->Some_0@ == format.to(), // #C14
//@end
//@fn file=process/yt_dlp.rs impl=YtDlpCommand fn=yt_dlp_path id=YtDlpCommand::yt_dlp_path props=C14
//@sig fn yt_dlp_path<S: VxInto<OsString>>(self, path: S) -> (r: YtDlpCommand)
    ensures r == (YtDlpCommand { cmd_name: r.cmd_name, ..self }) && r.cmd_name@ == path.to(), // #C14
//@end
//@fn file=process/yt_dlp.rs impl="From<YtDlpCommand> for Command" fn=from id=YtDlpCommand::into props=C14
//@sig fn into_cmd(value: YtDlpCommand) -> (r: Command)
    ensures value.makes(r@), // #C14
//@end
}
// ---------------------------------------------------------------- sources
impl<T> AsyncReadStreamParams<T> {
//@fn file=async_read.rs impl=AsyncReadStreamParams fn=new id=AsyncReadStreamParams::new props=C19
//@sig fn new(stream: T) -> (r: AsyncReadStreamParams<T>)
    ensures r == (AsyncReadStreamParams { stream, content_length: None::<u64> }), // #C19 no length by default
//@end
//@fn file=async_read.rs impl=AsyncReadStreamParams fn=content_length id=AsyncReadStreamParams::content_length props=C19
//@sig fn content_length<L: VxInto<Option<u64>>>(self, content_length: L) -> (r: AsyncReadStreamParams<T>)
    ensures r.stream == self.stream && r.content_length@ == content_length.to(), // #C19 the configured length
//@end
}
impl<T> AsyncReadStream<T> {
//@fn file=async_read.rs impl=AsyncReadStream fn=new id=AsyncReadStream::new props=C19
//@sig fn new<L: VxInto<Option<u64>>>(stream: T, content_length: L) -> (r: AsyncReadStream<T>)
    ensures r.stream.src == stream && r.content_length@ == content_length.to(), // #C19
//@end
//@fn file=async_read.rs impl="SourceStream for AsyncReadStream" fn=create id=AsyncReadStream::create props=C19
//@sig fn create(params: AsyncReadStreamParams<T>) -> (r: core::result::Result<AsyncReadStream<T>, Infallible>)
    ensures r is Ok && r->Ok_0.stream.src == params.stream && r->Ok_0.content_length == params.content_length, // #C19
//@end
//@fn file=async_read.rs impl="SourceStream for AsyncReadStream" fn=content_length id=AsyncReadStream::content_length props=C19
//@sig fn content_length(&self) -> (r: Option<u64>)
    ensures r == self.content_length, // #C19 exactly what was configured
//@end
//@fn file=async_read.rs impl="SourceStream for AsyncReadStream" fn=supports_seek id=AsyncReadStream::supports_seek props=C19
//@sig fn supports_seek(&self) -> (r: bool)
    ensures !r, // #C19 unsupported
//@end
//@fn file=async_read.rs impl="SourceStream for AsyncReadStream" fn=seek_range id=AsyncReadStream::seek_range props=C19
//@sig fn seek_range(&mut self, start: u64, end: Option<u64>) -> (r: io::Result<()>)
    ensures r is Err && r->Err_0.k is Unsupported && *final(self) == *old(self), // #C19 refused
//@end
//@fn file=async_read.rs impl="SourceStream for AsyncReadStream" fn=reconnect id=AsyncReadStream::reconnect props=C19
//@sig fn reconnect(&mut self, current_position: u64) -> (r: io::Result<()>)
    ensures r is Err && r->Err_0.k is Unsupported && *final(self) == *old(self), // #C19 refused
//@end
//@fn file=async_read.rs impl="Stream for AsyncReadStream" fn=poll_next id=AsyncReadStream::poll_next props=C19
//@sig fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Item>>)
    ensures ReaderStream::polled(old(self).stream, final(self).stream, r) && final(self).content_length == old(self).content_length, // #C19 what the reader delivers, nothing else
//@end
}
impl ProcessStreamParams {
//@fn file=process/mod.rs impl=ProcessStreamParams fn=new id=ProcessStreamParams::new props=C14,C19
//@sig fn new<C: SpawnCommand>(command: C) -> (r: io::Result<ProcessStreamParams>)
    requires command.ready(),
    ensures
        r is Ok ==> r->Ok_0.content_length is None, // #C19 no length by default
        r is Ok ==> r->Ok_0.command.child_handle.wf() && r->Ok_0.command.child_handle.p@ == pipeline(command.steps()), // #C14
//@end
//@fn file=process/mod.rs impl=ProcessStreamParams fn=content_length id=ProcessStreamParams::content_length props=C19
//@sig fn content_length<L: VxInto<Option<u64>>>(self, content_length: L) -> (r: ProcessStreamParams)
    ensures r.command == self.command && r.content_length@ == content_length.to(), // #C19
//@end
}
impl ProcessStream {
//@fn file=process/mod.rs impl="SourceStream for ProcessStream" fn=create id=ProcessStream::create props=C14,C19
//@sig fn create(params: ProcessStreamParams) -> (r: core::result::Result<ProcessStream, Infallible>)
    requires params.command.child_handle.wf(),
    ensures
        r is Ok && r->Ok_0.stream.content_length == params.content_length, // #C19
        r->Ok_0.stream.stream.src.of@ == params.command.child_handle.p@, // #C14 the last command's output
//@end
//@fn file=process/mod.rs impl="SourceStream for ProcessStream" fn=content_length id=ProcessStream::content_length props=C19
//@sig fn content_length(&self) -> (r: Option<u64>)
    ensures r == self.stream.content_length, // #C19
//@end
//@fn file=process/mod.rs impl="SourceStream for ProcessStream" fn=supports_seek id=ProcessStream::supports_seek props=C19
//@sig fn supports_seek(&self) -> (r: bool)
    ensures !r, // #C19
//@end
//@fn file=process/mod.rs impl="SourceStream for ProcessStream" fn=seek_range id=ProcessStream::seek_range props=C19
//@sig fn seek_range(&mut self, start: u64, end: Option<u64>) -> (r: io::Result<()>)
    ensures r is Err && r->Err_0.k is Unsupported && *final(self) == *old(self), // #C19
//@end
//@fn file=process/mod.rs impl="SourceStream for ProcessStream" fn=reconnect id=ProcessStream::reconnect props=C19
//@sig fn reconnect(&mut self, current_position: u64) -> (r: io::Result<()>)
    ensures r is Err && r->Err_0.k is Unsupported && *final(self) == *old(self), // #C19
//@end
//@fn file=process/mod.rs impl="Stream for ProcessStream" fn=poll_next id=ProcessStream::poll_next props=C14,C19
//@sig fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Item>>)
    ensures ReaderStream::polled(old(self).stream.stream, final(self).stream.stream, r) && final(self).stream.content_length == old(self).stream.content_length, // #C14,C19 what the last command writes
//@end
//@fn file=process/mod.rs impl=ProcessStream fn=check_stderr_files id=ProcessStream::check_stderr_files props=C09
//@sig fn check_stderr_files(&mut self)
    ensures final(self).stream == old(self).stream && final(self).child_handle == old(self).child_handle, // #C09 only looks at what the processes wrote to stderr
//@loop 0
        invariant self.stream == old(self).stream && self.child_handle == old(self).child_handle,
//@end
//@fn file=process/mod.rs impl=ProcessStream fn=close_stderr_files id=ProcessStream::close_stderr_files props=C09
//@sig fn close_stderr_files(&mut self)
    ensures final(self).stream == old(self).stream && final(self).child_handle == old(self).child_handle && final(self).stderr_files@.len() == 0, // #C09
//@loop 0
        invariant vx_i0 <= vx_s0@.len(),
        decreases vx_s0@.len() - vx_i0
//@end
//@fn file=process/mod.rs impl="SourceStream for ProcessStream" fn=on_finish id=ProcessStream::on_finish props=C09
//@eq
//@sig fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> (r: io::Result<()>)
    ensures
        r is Ok ==> result is Ok, // #C09 a failure stays one
        r is Ok ==> final(self).child_handle.over@, // #C09 the process has ended
//@end
}
} // verus!
