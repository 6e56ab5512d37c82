from .c import C
from .csharp import CSharp
from .go import Go
from .rust import Rust
from .ts import TypeScript
from .zig import Zig
from .assemblyscript import AssemblyScript
from .swift import Swift
ALL = [C, CSharp, Go, Rust, TypeScript, Zig]
BY_NAME = {l.name: l for l in ALL + [AssemblyScript, Swift]}
