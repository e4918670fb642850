CLAIM={k:"" for k in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20".split()}
NA={"C21":"The property is about the content of generated data and a generator program that reads files: there is no contract over the functions that would state it short of executing the generator, so it is not decided by deductive verification here."}
